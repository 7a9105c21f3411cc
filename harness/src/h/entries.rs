entries! {
    parse::{ c01_all, c02_span, c03_hdr, c04_ber, c05_der, c06_depth, c06_content, c09_indef, c15_typed, c15_derber }
    val::{ c07_acc, c07_big, c07_parse, c08_bits, c08_long, c08_parse, c16_visit, c17_iter, c18_access, c19_any }
    comb::{ c10_of, c10_def, c10_fields, c11_explicit, c11_implicit, c12_opt, c12_fields }
    ser::{ c13_build, c13_member, c13_parsed, c13_tagged, c13_tree, c13_time, c13_enum, c14_hdr, c14_raw }
    print::{ c21_text, c21_kind, c21_flags }
}
#[cfg(feature = "oid")]
pub mod oidm;
#[cfg(feature = "oid")]
#[export_name = "h_c20_oid"]
extern "C" fn e_oid() {
    oidm::c20_oid()
}
