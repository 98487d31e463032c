//! P35: documents written with the template macros.
use crate::T;

use oak_pretty_print::{AsDocument, Document as D, ToDocument, doc};

fn same(a: &D, b: &D) -> bool {
    match (a, b) {
        (D::Text(a), D::Text(b)) => a == b,
        (D::Concat(a), D::Concat(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (D::Group(a), D::Group(b)) | (D::Indent(a), D::Indent(b)) => same(a, b),
        (D::Nil, D::Nil) | (D::Line, D::Line) | (D::SoftLine, D::SoftLine) | (D::SoftLineSpace, D::SoftLineSpace) | (D::HardLine, D::HardLine) => true,
        _ => false,
    }
}
fn t(s: &str) -> D<'static> {
    D::Text(s.to_string().into())
}
fn cat(v: &[D<'static>]) -> D<'static> {
    D::Concat(v.to_vec())
}
fn group(d: D<'static>) -> D<'static> {
    D::Group(Box::new(d))
}
fn indent(d: D<'static>) -> D<'static> {
    D::Indent(Box::new(d))
}
/// `d0 sep d1 sep d2`
fn joined(v: &[D<'static>], sep: D<'static>) -> D<'static> {
    let mut all = vec![];
    for d in v {
        if !all.is_empty() {
            all.push(sep.clone())
        }
        all.push(d.clone())
    }
    D::Concat(all)
}
#[derive(AsDocument)]
struct Name(String);
#[derive(AsDocument)]
struct Named {
    it: Vec<Name>,
}
#[derive(AsDocument)]
#[oak(doc = ["let ", self.name.as_document(), soft_line_space, group([indent([line, self.value.as_document()]), hard_line]), nil])]
struct Let {
    name: Name,
    value: Option<Name>,
}
#[derive(AsDocument)]
#[allow(dead_code)]
enum Item {
    #[oak(doc = ["<", _self, ">"])]
    Tag(Name),
    List(Vec<Item>),
    Maybe(Option<Name>),
    #[oak(doc = "unit")]
    Unit,
    Empty,
    Pair(u8, u8),
    #[oak(doc = ["{", join(at.iter(), ","), "}"])]
    Set { at: Vec<Name> },
}
fn text() -> String {
    vx::text(if T { 3 } else { 2 }, 3)
}
fn is(a: D, b: D<'static>, what: &str) {
    assert!(same(&a, &b), "{what}");
}
/// P35: every form of a template, with arbitrary texts in its holes.
#[unsafe(no_mangle)]
pub extern "C" fn h_templates() {
    let (x, y) = (text(), vx::text(1, 2));
    let n = vx::choose(4);
    let names: Vec<String> = [&x[..], "k", &y][..n.min(3)].iter().map(|s| s.to_string()).collect();
    let docs: Vec<D<'static>> = names.iter().map(|s| t(s)).collect();
    match vx::choose(12) {
        0 => {
            is_flat(doc!(nil), D::Nil, "nil");
            is_flat(doc!(line), D::Line, "line");
            is_flat(doc!(soft_line), D::SoftLine, "soft line");
            is_flat(doc!(soft_line_space), D::SoftLineSpace, "soft line with a space");
            is_flat(doc!(hard_line), D::HardLine, "hard line");
            is_flat(doc!("a\nb"), t("a\nb"), "text");
            is_flat(doc!([]), cat(&[]), "nothing");
        }
        1 => is_flat(doc!(x.as_str()), t(&x), "an expression"),
        2 => is_flat(doc!(["a", x.as_str(), line, y.as_str()]), cat(&[cat(&[t("a"), t(&x), D::Line, t(&y)])]), "a sequence in brackets"),
        3 => is_flat(doc!("a", x.as_str(), soft_line), cat(&[t("a"), t(&x), D::SoftLine]), "a sequence"),
        4 => is_flat(doc!(group(indent(x.as_str()))), group(indent(t(&x))), "nesting"),
        5 => is_flat(doc!(indent(["(", group([x.as_str(), soft_line]), ")"])), indent(cat(&[cat(&[t("("), group(cat(&[cat(&[t(&x), D::SoftLine])])), t(")")])])), "nesting of sequences"),
        6 => {
            is_flat(doc!(join(names.iter(), ", ")), joined(&docs, t(", ")), "items with a separator between them");
            is_flat(doc!(join(names.clone(), [",", soft_line_space])), joined(&docs, cat(&[cat(&[t(","), D::SoftLineSpace])])), "items with a separator between them");
            // items that come to nothing still have their place
            let holes: Vec<Option<String>> = names.iter().map(|s| vx::flag().then(|| s.clone())).collect();
            let made: Vec<D<'static>> = holes.iter().map(|s| s.as_ref().map_or(D::Nil, |s| t(s))).collect();
            is_flat(doc!(join(holes.iter(), ";")), joined(&made, t(";")), "items that may be missing");
            is_flat(holes.as_document(), cat(&made), "a list of items that may be missing");
            is_flat(D::join(docs.clone(), D::Line), joined(&docs, D::Line), "items with a separator between them");
        }
        7 => {
            is(names.as_document(), cat(&docs), "a list");
            is(Some(x.clone()).as_document(), t(&x), "something");
            is(None::<String>.as_document(), D::Nil, "nothing");
            is(Box::new(&x).as_document(), t(&x), "a reference");
            is(x.as_str().as_document(), t(&x), "a text");
            is(x.clone().to_document(), t(&x), "a text");
            is(cat(&docs).as_document(), cat(&docs), "a document");
            is(D::from(x.clone()), t(&x), "a text");
            is(D::from(&y[..]), t(&y), "a text");
        }
        8 => {
            is(Name(x.clone()).as_document(), t(&x), "a wrapper is what it wraps");
            let it = names.iter().map(|s| Name(s.clone())).collect();
            is(Named { it }.as_document(), cat(&docs), "a wrapper is what it wraps");
        }
        9 => {
            let value = if n > 0 { Some(Name(y.clone())) } else { None };
            let inner = if n > 0 { t(&y) } else { D::Nil };
            let want = cat(&[t("let "), t(&x), D::SoftLineSpace, group(cat(&[indent(cat(&[D::Line, inner])), D::HardLine])), D::Nil]);
            is_flat(Let { name: Name(x.clone()), value }.as_document(), want, "a type with a template");
        }
        10 => {
            is_flat(Item::Tag(Name(x.clone())).as_document(), cat(&[t("<"), t(&x), t(">")]), "a member with a template");
            is_flat(Item::List(vec![Item::Tag(Name(x.clone())), Item::Unit, Item::Empty]).as_document(), cat(&[cat(&[t("<"), t(&x), t(">")]), t("unit"), D::Nil]), "a member around others");
            is(Item::Maybe(Some(Name(y.clone()))).as_document(), t(&y), "a member around one");
            is(Item::Maybe(None).as_document(), D::Nil, "a member around nothing");
            is(Item::Pair(1, 2).as_document(), D::Nil, "a member without a template");
        }
        _ => {
            let at = names.iter().map(|s| Name(s.clone())).collect();
            is_flat(Item::Set { at }.as_document(), cat(&[t("{"), joined(&docs, t(",")), t("}")]), "a member with named parts");
        }
    }
    vx::observe(x.len() as u64);
    vx::cover(1);
}
/// The same up to a concatenation of one.
fn is_flat(a: D, b: D<'static>, what: &str) {
    fn flat(d: &D, out: &mut Vec<D<'static>>) {
        match d {
            D::Concat(v) => v.iter().for_each(|d| flat(d, out)),
            D::Nil => {}
            D::Text(s) => out.push(t(s)),
            D::Group(d) => {
                let mut v = vec![];
                flat(d, &mut v);
                out.push(group(cat(&v)))
            }
            D::Indent(d) => {
                let mut v = vec![];
                flat(d, &mut v);
                out.push(indent(cat(&v)))
            }
            D::Line => out.push(D::Line),
            D::SoftLine => out.push(D::SoftLine),
            D::SoftLineSpace => out.push(D::SoftLineSpace),
            D::HardLine => out.push(D::HardLine),
        }
    }
    let (mut x, mut y) = (vec![], vec![]);
    flat(&a, &mut x);
    flat(&b, &mut y);
    assert!(same(&D::Concat(x), &D::Concat(y)), "{what}");
}
