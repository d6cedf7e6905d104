//@item src/mode.rs enum Mode derive=Clone,Copy,PartialEq,Eq,Structural
pub open spec fn better(m: Mode, a: F, b: F) -> bool { match m { Mode::Minimize => flt(a, b), Mode::Maximize => flt(b, a) } }
pub open spec fn order(m: Mode, a: F, b: F) -> Ordering { if better(m, a, b) { Ordering::Less } else if better(m, b, a) { Ordering::Greater } else { Ordering::Equal } }
impl Mode {
//@fn src/mode.rs "impl Mode" is_better
//@| ensures r == better(*self, a, b), /*C01 C06 C08 C16 C18*/
//@end
//@fn src/mode.rs "impl Mode" choose_best
//@| ensures !nan(a) && !nan(b) ==> (r == a || r == b) && !better(*self, a, r) && !better(*self, b, r), /*C02 C18*/
//@end
//@fn src/mode.rs "impl Mode" sort_cmp
//@sub * /utils::// 
//@| ensures r == order(*self, a, b), /*C03 C18*/
//@end
}
//@fn src/utils.rs - partial_cmp
//@| ensures r == (if flt(a, b) { Ordering::Less } else if flt(b, a) { Ordering::Greater } else { Ordering::Equal }),
//@end
