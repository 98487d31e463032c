use crate::{T, content};
use oak_diagnostic::{Diagnostic, Emitter, HtmlEmitter};
use oak_highlight::{
    exporters::{Exporter, HtmlExporter, JsonExporter},
    highlighter::{HighlightResult, HighlightSegment, HighlightSpan, HighlightStyle, HighlightTheme, OakHighlighter},
    themes::Theme,
};
use oak_json::{JsonLanguage, JsonLexer, JsonParser};
use oak_visualize::{
    geometry::{Point, Rect, Size},
    layout::{Edge, Layout, NodeType},
    render::{ElementStyle, ExportFormat, LayoutExporter, SvgRenderer},
};
use std::{borrow::Cow, collections::HashMap};

// ---- P21 ----
fn styled(i: usize) -> HighlightStyle {
    HighlightStyle { color: if i & 1 != 0 { Some("#FF0000".into()) } else { None }, background_color: None, bold: i & 2 != 0, italic: i & 4 != 0, underline: i & 4 != 0 }
}
fn segments<'a>(a: &'a str, b: &'a str, style: usize) -> Vec<HighlightSegment<'a>> {
    vec![
        HighlightSegment { span: HighlightSpan { start: 0, end: a.len() }, style: styled(style), text: Cow::Borrowed(a) },
        HighlightSegment { span: HighlightSpan { start: a.len(), end: a.len() + b.len() }, style: styled(0), text: Cow::Borrowed(b) },
    ]
}
/// P21: highlighted code as HTML.
#[unsafe(no_mangle)]
pub extern "C" fn h_escape_html() {
    let a = if T { vx::text(5, 4) } else { vx::text(4, 4) };
    let b = "<&";
    let style = vx::choose(8);
    let r = HighlightResult { segments: segments(&a, b, style), source: Cow::Borrowed("") };
    let out = HtmlExporter::new(vx::flag(), vx::flag()).export(&r);
    let parts = content(&out);
    let got: String = parts.iter().filter(|c| c.0.contains("highlight") && !c.0.starts_with('@')).map(|c| c.1.as_str()).collect();
    assert!(got == format!("{}{}", a, b), "text of the highlighted code");
    vx::cover(1);
}
/// P21: every text of a diagnostic as HTML.
#[unsafe(no_mangle)]
pub extern "C" fn h_escape_diagnostics() {
    let t = if T { vx::text(4, 4) } else { vx::text(3, 3) };
    let k = vx::choose(6);
    let at = |i: usize| if i == k { t.clone() } else { "t".to_string() };
    let mut d = Diagnostic::error(at(0)).with_label(core::range::Range { start: 0, end: 1 }, at(1)).with_help(at(2));
    if vx::flag() {
        d = d.with_code(at(3));
    } else {
        vx::assume(k != 3);
    }
    let source = at(4);
    let uri = at(5);
    let out = HtmlEmitter.render_localized::<_, ()>(&oak_core::source::SourceText::new(source.clone()), &d, None, Some(&uri));
    let all: String = content(&out).into_iter().filter(|c| !c.0.starts_with('@')).map(|c| c.1).collect();
    for s in [&d.message, d.labels[0].message.as_ref().unwrap(), d.help.as_ref().unwrap(), &uri, d.code.as_ref().unwrap_or(&uri)] {
        assert!(all.contains(s.as_str()), "a text is missing or changed");
    }
    let first = crate::lines(&source)[0];
    assert!(all.contains(first), "the line is missing or changed");
    vx::cover(1);
}
/// P21: labels and attributes of drawings.
#[unsafe(no_mangle)]
pub extern "C" fn h_escape_svg() {
    let t = if T { vx::text(5, 4) } else { vx::text(4, 4) };
    let k = vx::choose(5);
    let at = |i: usize, or: &str| if i == k { t.clone() } else { or.to_string() };
    let mut layout = Layout::new();
    let size = Size::new(10.0, 10.0);
    layout.add_node_with_metadata("n".into(), at(0, "label"), Rect::new(Point::new(0.0, 0.0), size), NodeType::Default);
    layout.add_edge(Edge::new("n".into(), "n".into()).with_label(at(1, "edge")).with_points(vec![Point::new(0.0, 0.0), Point::new(1.0, 2.0)]));
    let mut r = SvgRenderer::new();
    if k >= 2 {
        let style = ElementStyle::new().with_class(at(2, "class")).with_attribute("data-x".into(), at(3, "value"));
        r.set_node_style("n".into(), style.clone());
        if k == 4 {
            r.set_edge_style("n_n".into(), ElementStyle::new().with_class(t.clone()).with_attribute("data-y".into(), t.clone()));
        }
    }
    let out = r.render_layout(&layout).expect("drawing");
    let parts = content(&out);
    let texts: Vec<&str> = parts.iter().filter(|c| c.0.ends_with("/text label")).map(|c| c.1.as_str()).collect();
    let want: Vec<String> = vec![at(1, "edge"), at(0, "label")].into_iter().filter(|s| !s.is_empty()).collect();
    assert!(texts == want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "labels");
    if k >= 2 {
        assert!(parts.iter().any(|c| c.0 == "@data-x" && c.1 == at(3, "value")), "attribute of a node");
    }
    if k == 4 {
        assert!(parts.iter().any(|c| c.0 == "@data-y" && c.1 == t), "attribute of an edge");
    }
    vx::cover(1);
}
/// P21: JSON of highlighted code and layouts.
#[unsafe(no_mangle)]
pub extern "C" fn h_escape_json() {
    let mut a = vx::ascii_upto(if T { 2 } else { 1 });
    a.push_str(["", "é", "😀\\"][vx::choose(3)]);
    if vx::flag() {
        let style = vx::choose(8);
        let source = format!("{}\"", a);
        let r = HighlightResult { segments: segments(&a, "\"", style), source: Cow::Borrowed(&source) };
        let out = JsonExporter { pretty: vx::flag() }.export(&r);
        let back: HighlightResult<'_> = serde_json::from_str(&out).expect("not JSON");
        assert!(back.source == source && back.segments.len() == 2, "source or segments");
        for (x, y) in back.segments.iter().zip(&r.segments) {
            assert!(x.text == y.text && x.span == y.span && x.style == y.style, "segment");
        }
        vx::cover(1);
    } else {
        let mut layout = Layout::new();
        layout.add_node("n".into(), Rect::new(Point::new(1.0, 2.0), Size::new(3.0, 4.0)));
        layout.add_edge(Edge::new("n".into(), a.clone()).with_label(a.clone()));
        let out = LayoutExporter::new(ExportFormat::Json).export(&layout).expect("export");
        let v: serde_json::Value = serde_json::from_str(&out).expect("not JSON");
        assert!(v["edges"][0]["to"] == *a && v["edges"][0]["label"] == *a && v["edges"][0]["from"] == "n" && v["nodes"]["n"]["x"] == 1.0 && v["nodes"]["n"]["height"] == 4.0, "layout");
        vx::cover(2);
    }
}

// ---- P22 ----
fn theme() -> Theme {
    [Theme::Default, Theme::OneLight, Theme::OneDarkPro][vx::choose(3)]
}
fn tiles(r: &HighlightResult<'_>, text: &str) {
    assert!(r.source == text, "source");
    let mut at = 0;
    for s in &r.segments {
        assert!(s.span.start == at && s.span.end >= at && s.span.end <= text.len(), "segments leave a gap or overlap");
        assert!(s.text == text[s.span.start..s.span.end], "text of a segment");
        at = s.span.end;
    }
    assert!(at == text.len(), "text after the last segment");
}
/// P22: no parser.
#[unsafe(no_mangle)]
pub extern "C" fn h_tile() {
    let text = vx::text(5, 4);
    let r = OakHighlighter::new().highlight(&text, "x", theme()).result_or_panic();
    tiles(&r, &text);
    vx::cover(1);
}
/// P22: a JSON document.
#[unsafe(no_mangle)]
pub extern "C" fn h_tile_json() {
    let text = match vx::choose(4) {
        0 => vx::text(3, if T { 3 } else { 2 }),
        1 => vx::template("{\"a\":$$}", b'$'),
        2 => vx::template("[1, $\"b\"] $", b'$'),
        _ => vx::template("// c\n$ true$", b'$'),
    };
    let language: &'static JsonLanguage = Box::leak(Box::new(JsonLanguage::default()));
    let (parser, lexer) = (JsonParser::new(language), JsonLexer::new(language));
    let theme = theme();
    match OakHighlighter::new().highlight_with_language::<JsonLanguage, _, _>(&text, theme, &parser, &lexer) {
        Ok(r) => {
            tiles(&r, &text);
            for s in &r.segments {
                let st = theme.get_theme();
                assert!(st.styles.values().any(|x| *x == s.style) || s.style == HighlightStyle::default(), "a style the theme does not have");
            }
            vx::cover(1);
        }
        Err(_) => vx::cover(2),
    }
}
trait Unwrap<X> {
    fn result_or_panic(self) -> X;
}
impl<X, E> Unwrap<X> for Result<X, E> {
    fn result_or_panic(self) -> X {
        match self {
            Ok(x) => x,
            Err(_) => panic!("no highlighting"),
        }
    }
}
/// P22: which style a scope gets.
#[unsafe(no_mangle)]
pub extern "C" fn h_styles() {
    const NAMES: [&str; 6] = ["none", "a", "a.b", "a.b.c", "b", "ab"];
    let mut styles = HashMap::new();
    for (i, n) in NAMES.iter().enumerate() {
        if vx::flag() {
            styles.insert(n.to_string(), styled_by(i));
        }
    }
    let theme = HighlightTheme { name: String::new(), styles: styles.clone() };
    const SCOPES: [&str; 8] = ["a", "a.b", "a.b.c", "a.b.c.d", "b.a", "ab.c", "c", "a.c"];
    let n = vx::choose(if T { 5 } else { 4 });
    let scopes: Vec<String> = (0..n).map(|_| SCOPES[vx::choose(8)].to_string()).collect();
    // the most specific entry of each scope, the deepest of all of them, the first of those
    let mut best: Option<(usize, &str)> = None;
    let mut single = Vec::new();
    for s in &scopes {
        let mut mine: Option<(usize, &str)> = None;
        for n in NAMES {
            let prefix = s == n || (s.starts_with(n) && s.as_bytes()[n.len()] == b'.');
            let depth = n.split('.').count();
            if prefix && styles.contains_key(n) && mine.is_none_or(|m| depth > m.0) {
                mine = Some((depth, n));
            }
        }
        single.push(mine);
        if let Some(m) = mine {
            if best.is_none_or(|b| m.0 > b.0) {
                best = Some(m);
            }
        }
    }
    let or_none = |n: Option<(usize, &str)>| styles.get(n.map_or("none", |n| n.1)).cloned().unwrap_or_default();
    for (s, m) in scopes.iter().zip(&single) {
        assert!(theme.resolve_style(s) == or_none(*m), "style of a scope");
    }
    assert!(theme.resolve_styles(&scopes) == or_none(best), "style of several scopes");
    vx::cover(1);
}
fn styled_by(i: usize) -> HighlightStyle {
    HighlightStyle { color: Some(format!("#{}", i)), ..Default::default() }
}
