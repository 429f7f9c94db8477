//! Judging the diagnosis of a rejection (C17) against the diagnosis of the
//! reference model: the section, the positions of the list elements being
//! decoded, the reason and the offending value.
use crate::refdec::{self, KINDS, Leaf, Rej};
use std::error::Error;
use wadec::decode_errors::{DecodeModuleError as E, ParsePreambleError};

pub fn chain(e: &(dyn Error + 'static)) -> Vec<String> {
    let mut v = vec![];
    let mut cur = Some(e);
    while let Some(x) = cur {
        v.push(x.to_string());
        cur = x.source();
        if v.len() > 100_000 { break }
    }
    v
}

/// Display and Debug of the error and of everything in its chain.
pub fn print_all(e: &E) -> usize {
    use std::fmt::Write;
    struct Count(usize);
    impl Write for Count { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
    let mut c = Count(0);
    let mut cur: Option<&(dyn Error + 'static)> = Some(e);
    let mut n = 0;
    while let Some(x) = cur {
        let _ = write!(c, "{x}{x:#}");
        if n == 0 { let _ = write!(c, "{x:?}{x:#?}"); }
        cur = x.source();
        n += 1;
        assert!(n < 1_000_000, "endless cause chain");
    }
    c.0
}

/// the section a variant of the top-level error is about
fn section_of(e: &E) -> Option<u8> {
    Some(match e {
        E::DecodeCustomSection(_) => 0,
        E::DecodeTypeSection(_) => 1,
        E::DecodeImportSection(_) => 2,
        E::DecodeFunctionSection(_) => 3,
        E::DecodeTableSection(_) => 4,
        E::DecodeMemorySection(_) => 5,
        E::DecodeGlobalSection(_) => 6,
        E::DecodeExportSection(_) => 7,
        E::DecodeStartSection(_) => 8,
        E::DecodeElementSection(_) => 9,
        E::DecodeCodeSection(_) => 10,
        E::DecodeDataSection(_) => 11,
        E::DecodeDatacountSection(_) => 12,
        E::DecodeTagSection(_) => 13,
        E::SectionSizeMismatch { section_kind, .. } => KINDS.iter().position(|k| k == section_kind)? as u8,
        _ => return None,
    })
}
/// how the text names it
const TEXT: [&str; 14] = ["custom section", "Type section", "Import section", "Function section", "Table section", "Memory section", "Global section",
    "Export section", "Start section", "Element section", "Code section", "Data section", "Data Segment count", "Tag section"];

/// all numbers of a text, hexadecimal ones (0x..) included
pub fn numbers(s: &str) -> Vec<i128> {
    let b = s.as_bytes();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        let prev = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if !b[i].is_ascii_digit() || prev { i += 1; continue }
        let neg = i > 0 && b[i - 1] == b'-';
        if b[i] == b'0' && i + 2 < b.len() + 0 && b[i + 1] == b'x' {
            let j = (i + 2..b.len()).find(|&j| !b[j].is_ascii_hexdigit()).unwrap_or(b.len());
            v.push(i128::from_str_radix(&s[i + 2..j], 16).unwrap_or(-1));
            i = j;
        } else {
            let j = (i..b.len()).find(|&j| !b[j].is_ascii_digit()).unwrap_or(b.len());
            let n: i128 = s[i..j].parse().unwrap_or(-1);
            v.push(if neg { -n } else { n });
            i = j;
        }
    }
    v
}

pub fn judge(r: &Rej, e: &E, bytes: &[u8]) -> Result<(), String> {
    let ch = chain(e);
    let bad = |why: String| -> Result<(), String> { Err(format!("misleading diagnosis: {why}; the error says: {}; the model: {r:?}", ch.join(": "))) };
    let last = ch.last().map(String::as_str).unwrap_or("");

    // reasons that concern more than one section, or none
    match (&r.leaf, e) {
        (Leaf::Preamble(b), E::ParsePreamble(ParsePreambleError::Unexpected(x))) => {
            if b != x { return bad(format!("preamble {x:?} reported")) }
            return Ok(());
        }
        (Leaf::Preamble(_), _) => return bad("not reported as a wrong preamble".into()),
        (Leaf::OutOfOrder(a, b), E::SectionOutOfOrder { current, previous }) => {
            if KINDS[*a as usize] != *current || KINDS[*b as usize] != *previous { return bad(format!("names {current:?} and {previous:?}")) }
            let want = [format!("{:?}", KINDS[*a as usize]), format!("{:?}", KINDS[*b as usize])];
            if !want.iter().all(|w| last.contains(w.as_str())) { return bad("does not print the two sections".into()) }
            return Ok(());
        }
        (Leaf::OutOfOrder(..), _) => return bad("not reported as out of order".into()),
        (Leaf::Duplicate(a), E::DuplicateSection(k)) => {
            if KINDS[*a as usize] != *k || !last.contains(&format!("{k:?}")) { return bad(format!("names {k:?}")) }
            return Ok(());
        }
        (Leaf::Duplicate(_), _) => return bad("not reported as a duplicate".into()),
        (Leaf::CodeFunc { codes, funcs }, E::CodeFuncEntriesLenMismatch { codes_len, funcs_len }) => {
            if codes != codes_len || funcs != funcs_len { return bad(format!("reports {codes_len} code entries and {funcs_len} functions")) }
            return Ok(());
        }
        (Leaf::CodeFunc { .. }, _) => return bad("not reported as differing numbers of functions and code entries".into()),
        (Leaf::DataCount { datas, count }, E::DataCountMismatch { datas_len, data_count } | E::DataCountDatasLenMismatch { datas_len, data_count }) => {
            if datas != datas_len || count != data_count { return bad(format!("reports {datas_len} segments and a count of {data_count}")) }
            let n = numbers(last);
            if n.len() == 2 && n != [*count as i128, *datas as i128] { return bad("prints other counts".into()) }
            return Ok(());
        }
        (Leaf::DataCount { .. }, _) => return bad("not reported as a wrong data count".into()),
        (Leaf::DataIdxNoCount, E::DataIndexWithoutDataCount) => return Ok(()),
        (Leaf::DataIdxNoCount, _) => return bad("not reported as a missing data count".into()),
        (Leaf::SectionSize { declared: d, got: g }, E::SectionSizeMismatch { section_kind, declared, got }) => {
            if KINDS[r.sec.unwrap() as usize] != *section_kind || d != declared || g != got { return bad(format!("reports {section_kind:?} {declared} {got}")) }
            if !last.starts_with(&format!("{section_kind:?} ")) || numbers(last) != [*d as i128, *g as i128] { return bad("prints something else".into()) }
            return Ok(());
        }
        (Leaf::SectionSize { .. }, _) => return bad("not reported as a section size mismatch".into()),
        _ => {}
    }

    // the section
    if section_of(e) != r.sec { return bad(format!("is about section {:?}", section_of(e))) }
    match r.sec {
        Some(s) => {
            let lines = &ch[..ch.len().min(2)];
            if !lines.iter().any(|l| l.contains(TEXT[s as usize])) { return bad(format!("does not name the {}", TEXT[s as usize])) }
            for (i, t) in TEXT.iter().enumerate() {
                if i != s as usize && lines.iter().any(|l| l.contains(t)) { return bad(format!("names the {t}")) }
            }
        }
        None => if !matches!(e, E::DecodeSectionHeader(_) | E::ParsePreamble(_)) { return bad("is not about a section header".into()) },
    }
    // the positions
    let mut pos = vec![];
    for l in &ch { if let Some(i) = l.find("at position ") { pos.extend(numbers(&l[i..]).first().map(|n| *n as u32)) } }
    if pos != r.path { return bad(format!("positions {pos:?} instead of {:?}", r.path)) }
    // the reason
    let got = || -> Option<i128> { numbers(&last[last.rfind("got").or(last.rfind(':')).or(last.find("flag"))?..]).first().copied() };
    let want: Option<i128> = match &r.leaf {
        Leaf::SectionId(b) | Leaf::Marker(_, b) | Leaf::Opcode(b) => Some(*b as i128),
        Leaf::SubOpcode(_, n) | Leaf::Bitfield(n) | Leaf::MemargFlags(n) => Some(*n as i128),
        Leaf::NegIdx(x) => Some(*x as i128),
        Leaf::TooManyLocals(n) => Some(*n as i128),
        _ => None,
    };
    if let Some(w) = want {
        if got() != Some(w) { return bad(format!("the offending value is {w} ({w:#X}), not {:?}", got())) }
    }
    let says = |p: &[&str]| p.iter().any(|p| last.to_ascii_lowercase().contains(p));
    let ok = match &r.leaf {
        Leaf::Eof => says(&["failed to fill whole buffer", "unexpected end of file"]),
        Leaf::LebLong => says(&["too long"]),
        Leaf::LebRange => says(&["too large", "sign extension"]),
        Leaf::NegIdx(_) => says(&["negative"]),
        Leaf::UnexpectedElse => says(&["else"]),
        Leaf::Utf8 => says(&["utf-8"]),
        Leaf::TooManyLocals(_) => says(&["too many locals"]) && numbers(last).first() == Some(&(u32::MAX as i128)),
        Leaf::EntrySize { declared, got } => {
            let (d, g) = (*declared as i128, *got as i128);
            says(&["size mismatch"]) && numbers(last) == [d, g, d - g]
        }
        Leaf::SubOpcode(p, _) => match p { 0xFD => says(&["vector opcode"]), p => says(&[&format!("after 0x{p:x} marker")]) },
        Leaf::Opcode(_) => says(&["unexpected opcode"]),
        Leaf::Bitfield(_) => says(&["invalid bitfield"]),
        Leaf::MemargFlags(_) => says(&["invalid alignment flag"]),
        Leaf::SectionId(_) => says(&["invalid section id"]),
        Leaf::Marker(..) => says(&["expected"]),
        _ => true,
    };
    if !ok { return bad("gives another reason".into()) }
    // an index out of the range of one sort of index must not be blamed on another
    // the alternatives
    let alts: Vec<i128> = match (&r.leaf, last.find("expected"), last.rfind("got")) {
        (Leaf::Marker(..) | Leaf::SectionId(_) | Leaf::Bitfield(_), Some(i), Some(j)) if i < j => numbers(&last[i..j]),
        _ => vec![],
    };
    for a in alts {
        let fine = match &r.leaf {
            Leaf::Bitfield(_) => (0..=if r.sec == Some(9) { 7 } else { 2 }).contains(&a),
            Leaf::Marker("export", _) => (0..=4).contains(&a),
            _ => (0..=255).contains(&a) && {
                // put it in place of the offending byte: then that byte must not be rejected
                let mut b = bytes[..r.at].to_vec();
                b[r.at - 1] = a as u8;
                !matches!(refdec::decode(&b), Err(x) if x.at == r.at && !matches!(x.leaf, Leaf::Eof | Leaf::SectionSize { .. } | Leaf::EntrySize { .. } | Leaf::OutOfOrder(..) | Leaf::Duplicate(_) | Leaf::CodeFunc { .. } | Leaf::DataIdxNoCount | Leaf::DataCount { .. }))
            },
        };
        if !fine { return bad(format!("lists {a} ({a:#04X}) as acceptable")) }
    }
    Ok(())
}
