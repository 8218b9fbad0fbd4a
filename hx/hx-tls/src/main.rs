mod certs;
mod codec;
mod deframe;
mod dup;
mod frag;
mod join;
mod model;
mod names;
mod points;
mod store;
mod suites;
mod views;
mod wire;

fn main() {
    hx_lib::run(&[
        ("T01", deframe::t01),
        ("T02", join::t02),
        ("T03", frag::t03),
        ("T04", codec::t04),
        ("T05", dup::t05),
        ("T06", suites::t06),
        ("T07", suites::t07),
        ("T08", certs::t08),
        ("T09", certs::t09),
        ("T10", names::t10),
        ("T11", certs::t11),
        ("T12", points::t12),
        ("T13", views::t13),
        ("T14", store::t14),
    ]);
}
