//! The families of spec/FoliaScale.tla, performed on the library: what is observed in a document of a family of a given size.
use crate::exec::et;
use crate::state;
use folia::*;
use serde_json::{json, Map, Value};

type R<T> = Result<T, FoliaError>;
fn new(id: &str, t: &str, at: Vec<Attribute>) -> ElementData { let e = ElementData::new(et(t)).with_attribs(at); if id != "" { e.with_attrib(Attribute::Id(id.to_string())) } else { e } }
fn tc(s: &str) -> ElementData { new("", "TextContent", vec![]).with(DataType::Text(s.to_string())) }
fn w(id: &str) -> ElementData { new(id, "Word", vec![]) }
fn wt(id: &str, s: &str) -> ElementData { w(id).add_element(tc(s)) }
fn pos(set: &str, cls: &str) -> ElementData { new("", "PosAnnotation", vec![Attribute::Set(set.to_string()), Attribute::Class(cls.to_string())]) }
fn wref(id: &str) -> ElementData { new("", "WordReference", vec![Attribute::Idref(id.to_string())]) }
fn entity(id: &str, ids: &[String]) -> ElementData { let mut e = new(id, "Entity", vec![Attribute::Set("s".to_string())]); for i in ids { e = e.add_element(wref(i)); } e }
fn doc() -> R<Document> { Document::new("d", DocumentProperties::default()) }
fn base() -> R<Document> { let mut d = doc()?; d.add_element_to(0, new("p", "Paragraph", vec![]))?; Ok(d) }
fn i(d: &Document, id: &str) -> ElementKey { d.get_element_key_by_id(id).unwrap_or(4_000_000_000) }
fn flat(n: usize) -> R<Document> { let mut d = base()?; let p = i(&d, "p"); for k in 1..=n { d.add_element_to(p, wt(&format!("w{}", k), "x"))?; } Ok(d) }
/// the document saved and loaded again (an empty one if that fails: nothing is then observed as it should be)
fn re(d: &Document) -> R<Document> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let x = d.xml(0, 0)?; Document::from_str(&String::from_utf8(x).expect("utf-8"), DocumentProperties::default()) }));
    match r { Ok(Ok(d)) => Ok(d), _ => doc() }
}
fn sel(d: &Document, root: ElementKey, t: &str) -> Vec<ElementKey> {
    d.select_by_key(root, Selector::elements().element(Cmp::Is(et(t))), Recursion::Always, false, true).map(|x| x.element.key().expect("key")).collect()
}
fn cnt(d: &Document, t: &str) -> usize { sel(d, 0, t).len() }
fn text(d: &Document, k: ElementKey) -> Option<String> { d.get_element(k).and_then(|e| e.text(&TextParameters::default()).ok()) }
fn tl(d: &Document, k: ElementKey) -> i64 { text(d, k).map(|s| s.len() as i64).unwrap_or(-1) }
fn id(d: &Document, k: ElementKey) -> String { d.get_element(k).and_then(|e| e.id().map(|s| s.to_string())).unwrap_or_default() }
fn inorder(d: &Document, s: &[ElementKey], pre: &str) -> usize { s.iter().enumerate().filter(|(j, k)| id(d, **k) == format!("{}{}", pre, j + 1)).count() }
fn found(d: &Document, pre: &str, n: usize) -> usize {
    (1..=n).filter(|k| { let x = format!("{}{}", pre, k); d.get_element_by_id(&x).map(|e| e.id() == Some(x.as_str())).unwrap_or(false) }).count() }
fn els(d: &Document) -> usize { <Document as Store<ElementData, ElementKey>>::items(d).iter().filter(|x| x.is_some()).count() }
fn decsof(d: &Document, a: AnnotationType) -> usize { d.declarations().filter(|x| x.as_ref().map(|x| x.annotationtype == a).unwrap_or(false)).count() }
fn deckey(d: &Document, a: AnnotationType, set: &str) -> Option<DecKey> { d.get_declaration_key_by_id(&Declaration::index_id(a, &Some(set))) }
fn dec<'a>(d: &'a Document, a: AnnotationType, set: &str) -> Option<&'a Declaration> { deckey(d, a, set).and_then(|k| d.get_declaration(k)) }
fn classes(d: &Document, a: AnnotationType, set: &str) -> usize { dec(d, a, set).map(|x| x.classes.as_ref().map(|c| c.items().iter().filter(|s| s.is_some()).count()).unwrap_or(0)).unwrap_or(0) }
fn subsets(d: &Document, a: AnnotationType, set: &str) -> usize { dec(d, a, set).map(|x| x.subsets.as_ref().map(|c| c.items().iter().filter(|s| s.is_some()).count()).unwrap_or(0)).unwrap_or(0) }
fn classquery(t: &str, set: &str, cls: &str) -> Query { Query::select().element(Cmp::Is(et(t))).set(Cmp::Is(set.to_string())).class(Cmp::Is(cls.to_string())) }
fn qclass(d: &Document, t: &str, set: &str, cls: &str) -> R<usize> { Ok(d.select(Selector::from_query(d, &classquery(t, set, cls))?, Recursion::Always).count()) }
fn kid(d: &Document, k: ElementKey, t: &str, nth: usize) -> Option<ElementKey> {
    d.select_by_key(k, Selector::elements().element(Cmp::Is(et(t))), Recursion::No, false, true).nth(nth).and_then(|x| x.element.key()) }
fn spans(d: &Document, k: ElementKey, t: &str) -> Vec<ElementKey> {
    d.select_by_key(k, Selector::elements().element(Cmp::Is(et(t))), Recursion::No, false, true).map(|x| x.element.key().expect("key")).collect() }
fn ancs(d: &Document, k: ElementKey) -> usize { d.ancestors_by_key(k, Selector::elements()).count() }
fn index(d: &Document, id: &str) -> i64 { d.get_element_by_id(id).and_then(|e| e.get_index()).map(|x| x as i64).unwrap_or(-1) }
fn par(d: &Document, k: ElementKey) -> ElementKey { d.get_element(k).and_then(|e| e.parent_key()).unwrap_or(4_000_000_000) }
fn clsat(d: &Document, k: usize) -> String {
    kid(d, i(d, &format!("w{}", k)), "PosAnnotation", 0).and_then(|a| d.get_element(a)).and_then(|e| e.class().map(|s| s.to_string())).unwrap_or_default() }
fn procat(d: &Document, k: usize) -> String {
    kid(d, i(d, &format!("w{}", k)), "PosAnnotation", 0).and_then(|a| d.get_element(a)).and_then(|e| e.processor().map(|s| s.to_string())).unwrap_or_default() }
fn proc_(id: String) -> Processor { let mut p = Processor::default().with_id(id.clone()); p.name = id; p }
fn annotators(d: &Document, set: &str) -> usize { dec(d, AnnotationType::POS, set).map(|x| x.processors.len()).unwrap_or(0) }
fn procdepth(d: &Document, id: &str) -> usize { let mut n = 0; let mut p = d.get_processor_by_id(id); while let Some(q) = p { n += 1; p = q.processors.get(0).and_then(|k| d.get_processor(*k)); } n }
fn ids(pre: &str, n: usize) -> Vec<String> { (1..=n).map(|k| format!("{}{}", pre, k)).collect() }
fn yes(b: bool) -> usize { if b { 1 } else { 0 } }

macro_rules! obs { ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = Map::new(); $(m.insert($k.to_string(), json!($v));)* Ok(m) }} }

pub fn scale(kind: &str, n: usize) -> R<Map<String, Value>> {
    let half = n / 2;
    match kind {
        "flat" => {
            let mut d = flat(n)?; let r = re(&d)?;
            let ws = sel(&d, 0, "Word"); let rs = sel(&r, 0, "Word");
            let xml = String::from_utf8(d.xml(0, 0).unwrap_or_default()).unwrap_or_default();
            let (found, text, index, count) = (found(&d, "w", n), tl(&d, i(&d, "p")), index(&d, &format!("w{}", n)), els(&d));
            let p = i(&d, "p"); let words = inorder(&d, &ws, "w");
            let dup = d.add_element_to(p, w("w1")).is_ok();
            obs!("P01:elements" => count, "P10:words" => words, "P10:count" => ws.len(), "P02:found" => found, "P14:text" => text, "P01:index" => index, "P02:dup" => yes(dup), "P22:elements" => els(&d),
                "P15:words" => inorder(&r, &rs, "w"), "P15:elements" => els(&r), "P17:found" => self::found(&r, "w", n), "P16:words" => xml.matches("<w ").count() + xml.matches("<w>").count())
        }
        "move" => {
            let mut d = flat(n)?; d.add_element_to(0, new("q", "Paragraph", vec![]))?;
            let (p, q) = (i(&d, "p"), i(&d, "q"));
            for k in 1..=half { let c = i(&d, &format!("w{}", 2 * k)); d.attach_element(q, c)?; }
            let (left, moved) = (sel(&d, p, "Word").len(), sel(&d, q, "Word").len());
            for k in 1..=half { let c = i(&d, &format!("w{}", 2 * k - 1)); d.detach_element(c)?; }
            let detached = sel(&d, p, "Word").len();
            for k in 1..=half { let c = i(&d, &format!("w{}", 2 * k - 1)); d.attach_element(q, c)?; }
            obs!("P03:left" => left, "P03:moved" => moved, "P03:detached" => detached, "P03:all" => cnt(&d, "Word"), "P01:elements" => els(&d), "P03:last" => index(&d, &format!("w{}", (2 * half).saturating_sub(1))), "P14:text" => tl(&d, q))
        }
        "deep" => {
            let bottom = || new("", "Paragraph", vec![]).add_element(wt("w", "x"));
            let mut e = bottom();
            for k in (1..=n).rev() { e = new(&format!("v{}", k), "Division", vec![]).add_element(e); }
            let mut d = doc()?; d.add_element_to(0, e)?;
            let mut s = doc()?; let mut at = 0;
            for k in 1..=n { at = s.add_element_to(at, new(&format!("v{}", k), "Division", vec![]))?; }
            s.add_element_to(at, bottom())?;
            let r = re(&d)?;
            let (wk, last) = (i(&d, "w"), i(&d, &format!("v{}", n)));
            let a = ancs(&d, wk);
            let divs = d.ancestors_by_key(wk, Selector::elements().element(Cmp::Is(ElementType::Division))).count();
            let order = inorder(&d, &sel(&d, 0, "Division"), "v");
            let common = d.common_ancestors(Selector::elements(), &[wk, last]);
            let down = d.common_ancestors(Selector::elements().element(Cmp::Is(ElementType::Division)), &[wk, last]);
            let downorder = down.iter().enumerate().filter(|(k, e)| id(&d, **e) == format!("v{}", n as i64 - 1 - *k as i64)).count();
            let tx = tl(&d, 0);
            let same = state::state(&d).0 == state::state(&s).0;
            let first = i(&d, "v1");
            let looped = d.attach_element(last, first).is_ok();
            d.detach_element(first)?;
            let away = d.get_element(0).map(|e| e.elementdata_len()).unwrap_or(99);
            obs!("P12:ancestors" => a, "P12:divisions" => divs, "P12:common" => common.len(), "P12:commonorder" => downorder, "P10:divisions" => order, "P14:text" => tx, "P19:same" => yes(same), "P15:divisions" => inorder(&r, &sel(&r, 0, "Division"), "v"),
                "P15:ancestors" => ancs(&r, i(&r, "w")), "P03:away" => away, "P03:subtree" => sel(&d, first, "Division").len(), "P01:loop" => yes(looped))
        }
        "classes" => {
            let mut d = flat(n)?;
            for k in 1..=n { let x = i(&d, &format!("w{}", k)); d.annotate(x, pos("s", &format!("c{}", k)))?; }
            let r = re(&d)?;
            let right = |d: &Document| (1..=n).filter(|k| clsat(d, *k) == format!("c{}", k)).count();
            obs!("P07:declarations" => decsof(&d, AnnotationType::POS), "P08:classes" => classes(&d, AnnotationType::POS, "s"), "P08:first" => clsat(&d, 1), "P08:last" => clsat(&d, n), "P08:right" => right(&d),
                "P11:last" => qclass(&d, "PosAnnotation", "s", &format!("c{}", n))?, "P11:first" => qclass(&d, "PosAnnotation", "s", "c1")?, "P15:right" => right(&r), "P15:classes" => classes(&r, AnnotationType::POS, "s"))
        }
        "sets" => {
            let mut d = base()?;
            for k in 1..=n { d.declare(AnnotationType::POS, &Some(format!("s{}", k)), &None, &None)?; }
            let p = i(&d, "p"); let x = d.add_element_to(p, w("w"))?;
            d.annotate(x, pos(&format!("s{}", n), "c"))?; d.annotate(x, pos("s1", "c"))?;
            let r = re(&d)?;
            let at = |d: &Document, k: usize| kid(d, i(d, "w"), "PosAnnotation", k - 1).and_then(|a| d.get_element(a)).and_then(|e| e.set().map(|s| s.to_string())).unwrap_or_default();
            let found = (1..=n).filter(|k| { let s = format!("s{}", k); dec(&d, AnnotationType::POS, &s).map(|x| x.set.as_ref() == Some(&s)).unwrap_or(false) }).count();
            obs!("P07:declarations" => decsof(&d, AnnotationType::POS), "P07:found" => found, "P07:default" => d.get_default_set(AnnotationType::POS).unwrap_or(""), "P08:last" => at(&d, 1), "P08:first" => at(&d, 2),
                "P11:last" => qclass(&d, "PosAnnotation", &format!("s{}", n), "c")?, "P15:last" => at(&r, 1), "P15:first" => at(&r, 2), "P15:declarations" => decsof(&r, AnnotationType::POS))
        }
        "procs" => {
            let mut d = flat(n)?;
            for k in 1..=n { d.add_processor(proc_(format!("p{}", k)))?; }
            for k in 1..=n { let x = i(&d, &format!("w{}", k)); d.annotate(x, pos("s", "c").with_attrib(Attribute::Processor(format!("p{}", k))))?; }
            let r = re(&d)?;
            let right = |d: &Document| (1..=n).filter(|k| procat(d, *k) == format!("p{}", k)).count();
            obs!("P09:chain" => d.provenancestore.chain.len(), "P09:right" => right(&d), "P09:annotators" => annotators(&d, "s"), "P15:chain" => r.provenancestore.chain.len(), "P15:right" => right(&r), "P15:annotators" => annotators(&r, "s"))
        }
        "sub" => {
            let mut d = flat(1)?;
            let mut p: Option<Processor> = None;
            for k in (1..=n).rev() { let q = proc_(format!("p{}", k)); p = Some(match p { Some(p) => q.with_new_subprocessor(p), None => q }); }
            d.add_processor(p.expect("n > 0"))?;
            let x = i(&d, "w1"); d.annotate(x, pos("s", "c").with_attrib(Attribute::Processor(format!("p{}", n))))?;
            let r = re(&d)?;
            let (last, first) = (d.get_processor_key_by_id(&format!("p{}", n)).unwrap_or(60000), d.get_processor_key_by_id("p1").unwrap_or(60000));
            let looped = d.attach_processor(last, first).is_ok();
            obs!("P09:chain" => d.provenancestore.chain.len(), "P09:depth" => if looped { 0 } else { procdepth(&d, "p1") }, "P09:last" => procat(&d, 1), "P09:loop" => yes(looped), "P15:depth" => procdepth(&r, "p1"), "P15:last" => procat(&r, 1))
        }
        "feats" => {
            let mut d = flat(1)?;
            let mut a = pos("s", "c");
            for k in 1..=n { a = a.add_element(new("", "Feature", vec![Attribute::Subset(format!("x{}", k)), Attribute::Class(format!("f{}", k))])); }
            let x = i(&d, "w1"); let a = d.annotate(x, a)?;
            let r = re(&d)?;
            let right = |d: &Document, a: ElementKey| { let e = d.get_element(a).expect("annotation"); (1..=n).filter(|k| {
                let s: Vec<String> = e.get_features(Cmp::Is(format!("x{}", k))).map(|f| f.element.class().unwrap_or("").to_string()).collect();
                s == vec![format!("f{}", k)] }).count() };
            let all = d.get_element(a).expect("annotation").get_features(Cmp::Any).count();
            let ra = kid(&r, i(&r, "w1"), "PosAnnotation", 0).unwrap_or(0);
            obs!("P13:features" => all, "P13:right" => right(&d, a), "P08:subsets" => subsets(&d, AnnotationType::POS, "s"), "P15:right" => right(&r, ra), "P15:subsets" => subsets(&r, AnnotationType::POS, "s"))
        }
        "span" => {
            let mut d = flat(n)?; let ws = ids("w", n);
            d.annotate_span(entity("e1", &ws))?;
            let r = re(&d)?;
            let words = |d: &Document| { let e = i(d, "e1"); ws.iter().filter(|x| spans(d, i(d, x), "Entity") == vec![e]).count() };
            let again = d.get_span_keys(&entity("", &ws)).iter().copied().eq(ws.iter().map(|x| i(&d, x)));
            obs!("P06:references" => sel(&d, i(&d, "e1"), "WordReference").len(), "P06:words" => words(&d), "P15:references" => sel(&r, i(&r, "e1"), "WordReference").len(), "P15:words" => words(&r),
                "P05:layers" => cnt(&d, "EntitiesLayer"), "P14:text" => tl(&d, i(&d, "e1")), "P05:again" => yes(again))
        }
        "over" => {
            let mut d = flat(1)?;
            for k in 1..=n { d.annotate_span(entity(&format!("e{}", k), &ids("w", 1)))?; }
            let r = re(&d)?;
            let (layers, sp, order, rsp) = (cnt(&d, "EntitiesLayer"), inorder(&d, &spans(&d, i(&d, "w1"), "Entity"), "e"), inorder(&d, &sel(&d, 0, "Entity"), "e"), inorder(&r, &spans(&r, i(&r, "w1"), "Entity"), "e"));
            for k in 1..=half { let e = i(&d, &format!("e{}", k)); d.detach_element(e)?; }
            let layer = par(&d, i(&d, &format!("e{}", n)));
            obs!("P05:layers" => layers, "P06:spans" => sp, "P05:order" => order, "P15:spans" => rsp, "P03:left" => sel(&d, layer, "Entity").len())
        }
        "lay" => {
            let mut d = doc()?; let ws = ids("w", n);
            for k in 1..=n { d.add_element_to(0, new(&format!("p{}", k), "Paragraph", vec![]).add_element(wt(&format!("w{}", k), "x")))?; }
            for k in 1..=n { d.annotate_span(entity(&format!("e{}", k), &ws[k - 1..k]))?; }
            let layers = cnt(&d, "EntitiesLayer");
            let right = (1..=n).filter(|k| par(&d, par(&d, i(&d, &format!("e{}", k)))) == i(&d, &format!("p{}", k))).count();
            d.annotate_span(entity("all", &ws))?;
            let ks: Vec<ElementKey> = ws.iter().map(|x| i(&d, x)).collect();
            obs!("P05:layers" => layers, "P05:right" => right, "P05:over" => cnt(&d, "EntitiesLayer"), "P12:common" => d.common_ancestors(Selector::elements(), &ks).len())
        }
        "long" => {
            let s = "x".repeat(n);
            let mut d = base()?; let p = i(&d, "p");
            let x = d.add_element_to(p, wt(&format!("w{}", s), &s))?;
            d.annotate(x, pos(&format!("s{}", s), &format!("c{}", s)))?;
            d.metadata.data.insert("k".to_string(), s.clone());
            let r = re(&d)?;
            let wrong = |d: &Document| {
                let x = i(d, &format!("w{}", s)); let a = kid(d, x, "PosAnnotation", 0).and_then(|a| d.get_element(a));
                let a = match a { Some(a) => a, None => return 9 };
                [d.get_element(x).is_some(), a.set() == Some(format!("s{}", s).as_str()), a.class() == Some(format!("c{}", s).as_str()), text(d, x).as_ref() == Some(&s), d.metadata.data.get("k") == Some(&s)].iter().filter(|x| !**x).count()
            };
            obs!("P08:wrong" => wrong(&d), "P15:wrong" => wrong(&r))
        }
        "mark" => {
            let mut t = new("", "TextContent", vec![]);
            for _ in 0..n { t = t.with(DataType::Text("a".to_string())).add_element(new("", "TextMarkupString", vec![]).with(DataType::Text("b".to_string()))); }
            let mut d = base()?; let p = i(&d, "p"); d.add_element_to(p, w("w").add_element(t))?;
            let r = re(&d)?;
            obs!("P14:text" => tl(&d, i(&d, "w")), "P10:markup" => cnt(&d, "TextMarkupString"), "P15:text" => tl(&r, i(&r, "w")), "P15:markup" => cnt(&r, "TextMarkupString"))
        }
        "meta" => {
            let mut d = base()?;
            for k in 1..=n { d.metadata.data.insert(format!("k{}", k), format!("v{}", k)); }
            for k in 1..=n { let mut m = Metadata::default(); m.metadatatype = Some("native".to_string()); m.data.insert("k".to_string(), format!("v{}", k)); d.submetadata.insert(format!("m{}", k), m); }
            let r = re(&d)?;
            let f = |d: &Document| (1..=n).filter(|k| d.metadata.data.get(&format!("k{}", k)) == Some(&format!("v{}", k))).count();
            let s = |d: &Document| (1..=n).filter(|k| d.submetadata.get(&format!("m{}", k)).map(|m| m.data.len() == 1 && m.data.get("k") == Some(&format!("v{}", k))).unwrap_or(false)).count();
            obs!("P20:before" => f(&d), "P20:subbefore" => s(&d), "P20:fields" => f(&r), "P20:all" => r.metadata.data.len(), "P20:sub" => s(&r), "P20:suball" => r.submetadata.len())
        }
        "alt" => {
            let mut d = flat(1)?; let x = i(&d, "w1");
            for k in 1..=n { d.annotate(x, pos("s", &format!("c{}", k)))?; }
            let r = re(&d)?;
            let mut sel: Option<Selector> = None;
            for k in (1..=half).rev() { let s = Selector::from_query(&d, &classquery("PosAnnotation", "s", &format!("c{}", 2 * k)))?; sel = Some(match sel { Some(p) => s.and(p), None => s }); }
            let alternatives = match sel { Some(s) => d.select_by_key(0, s, Recursion::Always, false, true).count(), None => 0 };
            obs!("P10:annotations" => cnt(&d, "PosAnnotation"), "P11:alternatives" => alternatives, "P15:annotations" => cnt(&r, "PosAnnotation"))
        }
        "cut" => {
            let x = String::from_utf8(flat(n)?.xml(0, 0)?).expect("utf-8"); let x = x.trim_end();
            let load = |s: &str| Document::from_str(s, DocumentProperties::default()).is_ok();
            let mut cut = 0;
            let whole = load(x); let x = &x[..x.rfind("</text").unwrap_or(0)]; // what comes after the body is not looked at
            for k in 0..10 { let mut at = x.len() * k / 10; while !x.is_char_boundary(at) { at -= 1; } cut += yes(load(&x[..at])); }
            obs!("P18:whole" => yes(whole), "P18:cut" => cut + yes(load(x)))
        }
        "manysets" => {
            let mut changed = 0;
            let mut d = base()?; let mut ok: Vec<(DecKey, String)> = vec![];
            for k in 1..=n {
                let s = format!("s{}", k); let before = <Document as Store<Declaration, DecKey>>::items(&d).len();
                match d.declare(AnnotationType::POS, &Some(s.clone()), &None, &None) { Ok(dk) => ok.push((dk, s)), Err(_) => if <Document as Store<Declaration, DecKey>>::items(&d).len() != before || deckey(&d, AnnotationType::POS, &s).is_some() { changed += 1; } }
            }
            let decs = ok.iter().filter(|(k, s)| d.get_declaration(*k).map(|x| x.set.as_ref() == Some(s)) != Some(true) || deckey(&d, AnnotationType::POS, s) != Some(*k)).count();
            obs!("P07:aliased" => decs, "P22:changed" => changed)
        }
        "manyprocs" => {
            let mut changed = 0;
            let mut d = base()?; let mut ok: Vec<(ProcKey, String)> = vec![];
            for k in 1..=n {
                let s = format!("p{}", k); let before = (<Document as Store<Processor, ProcKey>>::items(&d).len(), d.provenancestore.chain.len());
                match d.add_processor(proc_(s.clone())) { Ok(pk) => ok.push((pk, s)), Err(_) => if (<Document as Store<Processor, ProcKey>>::items(&d).len(), d.provenancestore.chain.len()) != before || d.get_processor_key_by_id(&s).is_some() { changed += 1; } }
            }
            let procs = ok.iter().filter(|(k, s)| d.get_processor(*k).map(|x| &x.id == s) != Some(true) || d.get_processor_key_by_id(s) != Some(*k)).count();
            obs!("P09:aliased" => procs, "P22:changed" => changed)
        }
        "manysubs" => {
            let mut changed = 0;
            let mut d = flat(1)?; let x = i(&d, "w1"); let a = d.annotate(x, pos("s", "c"))?; let mut ok: Vec<(ElementKey, String)> = vec![];
            for k in 1..=n {
                let s = format!("x{}", k); let counts = |d: &Document| (els(d), classes(d, AnnotationType::POS, "s"), subsets(d, AnnotationType::POS, "s"), dec(d, AnnotationType::POS, "s").and_then(|x| x.subset_key(&s)).is_some());
                let before = if k > 65000 { Some(counts(&d)) } else { None };
                match d.add_element_to(a, new("", "Feature", vec![Attribute::Subset(s.clone()), Attribute::Class("f".to_string())])) { Ok(f) => ok.push((f, s)), Err(_) => if before.is_some() && before != Some(counts(&d)) { changed += 1; } }
            }
            let feats = ok.iter().filter(|(k, s)| d.get_element(*k).map(|e| e.subset() == Some(s.as_str())) != Some(true)).count();
            obs!("P08:aliased" => feats, "P22:changed" => changed)
        }
        other => panic!("HARNESS: no family {}", other),
    }
}
trait Len { fn elementdata_len(&self) -> usize; }
impl<'a> Len for Element<'a> { fn elementdata_len(&self) -> usize { <Self as ReadElement>::elementdata(self).len() } }

/// stdin: one {"kind","n"} per line; the observations (or how it failed) are written line by line
pub fn main() {
    use std::io::{BufRead, Write};
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let c: Value = serde_json::from_str(&line).expect("json");
        let (kind, n) = (crate::exec::st(&c["kind"]).to_string(), crate::exec::us(&c["n"]));
        let t = std::time::Instant::now();
        let r = std::panic::catch_unwind(|| scale(&kind, n));
        let v = match r { Ok(Ok(m)) => json!({"obs": m}), Ok(Err(e)) => json!({"err": format!("{:?}", e)}), Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("HARNESS") { eprintln!("{}", msg); std::process::exit(9); }
            json!({"panic": msg}) } };
        let mut v = v; v["ms"] = json!(t.elapsed().as_millis() as u64);
        println!("{}", v);
        std::io::stdout().flush().unwrap();
    }
}
