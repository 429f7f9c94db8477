//! Structural comparison of modules, floating-point constants by bit pattern.
use wadec::core::Instruction as I;
use wadec::core::*;

pub fn ins_eq(a: &I, b: &I) -> bool {
    match (a, b) {
        (I::F32Const(x), I::F32Const(y)) => x.to_bits() == y.to_bits(),
        (I::F64Const(x), I::F64Const(y)) => x.to_bits() == y.to_bits(),
        (I::Block(t, x), I::Block(u, y)) | (I::Loop(t, x), I::Loop(u, y)) => t == u && expr_eq(x, y),
        (I::If(t, x, p), I::If(u, y, q)) => {
            t == u && expr_eq(x, y)
                && match (p, q) {
                    (None, None) => true,
                    (Some(p), Some(q)) => expr_eq(p, q),
                    _ => false,
                }
        }
        (I::TryTable(t, c, x), I::TryTable(u, d, y)) => t == u && c == d && expr_eq(x, y),
        _ => a == b,
    }
}
pub fn expr_eq(a: &[I], b: &[I]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| ins_eq(x, y)) }

/// What differs between the module the reference assigns and the decoded one.
pub fn diff(m: &Module, g: &Module) -> Option<String> {
    macro_rules! same { ($($f:ident),*) => { $( if m.$f != g.$f { return Some(format!("{}: expected {}, got {}", stringify!($f), cut(&m.$f), cut(&g.$f))) } )* } }
    macro_rules! each {
        ($f:ident, $eq:expr) => {
            if m.$f.len() != g.$f.len() { return Some(format!("{}: expected {} entries, got {}", stringify!($f), m.$f.len(), g.$f.len())) }
            for (i, (a, b)) in m.$f.iter().zip(&g.$f).enumerate() {
                if !$eq(a, b) { return Some(format!("{}[{i}]: expected {}, got {}", stringify!($f), cut(a), cut(b))) }
            }
        };
    }
    same!(version, parsed_section_kinds, section_headers, custom_sections, types, mems, data_count, start, imports, exports, tags);
    each!(funcs, |a: &Func, b: &Func| a.r#type == b.r#type && a.locals == b.locals && expr_eq(&a.body, &b.body));
    each!(tables, |a: &Table, b: &Table| a.0 == b.0 && expr_eq(&a.1, &b.1));
    each!(globals, |a: &Global, b: &Global| a.r#type == b.r#type && expr_eq(&a.init, &b.init));
    each!(elems, |a: &Elem, b: &Elem| a.r#type == b.r#type
        && a.init.len() == b.init.len() && a.init.iter().zip(&b.init).all(|(x, y)| expr_eq(x, y))
        && match (&a.mode, &b.mode) {
            (ElemMode::Active { table: t, offset: x }, ElemMode::Active { table: u, offset: y }) => t == u && expr_eq(x, y),
            (x, y) => x == y,
        });
    each!(datas, |a: &Data, b: &Data| a.init == b.init
        && match (&a.mode, &b.mode) {
            (DataMode::Active { memory: t, offset: x }, DataMode::Active { memory: u, offset: y }) => t == u && expr_eq(x, y),
            (x, y) => x == y,
        });
    None
}
fn cut<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s }
}
