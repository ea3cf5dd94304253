//! Executes one operation (the same JSON record the specification uses) on a real Document.
use crate::state::*;
use folia::*;
use serde_json::{json, Value};

pub fn et(s: &str) -> ElementType { serde_json::from_value(json!(s)).unwrap_or_else(|_| panic!("HARNESS: no element type {}", s)) }
pub fn eg(s: &str) -> ElementGroup { serde_json::from_value(json!(s)).unwrap_or_else(|_| panic!("HARNESS: no group {}", s)) }
pub fn ant(s: &str) -> AnnotationType { serde_json::from_value(json!(s)).unwrap_or_else(|_| panic!("HARNESS: no annotation type {}", s)) }
pub fn pt(s: &str) -> ProcessorType { match s { "Manual" => ProcessorType::Manual, "Generator" => ProcessorType::Generator, "DataSource" => ProcessorType::DataSource, _ => ProcessorType::Auto } }

pub fn st(v: &Value) -> &str { v.as_str().unwrap_or_else(|| panic!("HARNESS: not a string: {}", v)) }
pub fn us(v: &Value) -> usize { v.as_u64().unwrap_or_else(|| panic!("HARNESS: not a number: {}", v)) as usize }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().unwrap_or_else(|| panic!("HARNESS: not an array: {}", v)) }
pub fn os(v: &Value) -> Option<String> { arr(v).get(0).map(|s| st(s).to_string()) }
pub fn bo(v: &Value) -> bool { v.as_bool().unwrap_or(false) }

pub fn attr(n: &str, v: &str) -> Attribute {
    let s = v.to_string();
    match n {
        "ID" => Attribute::Id(s), "SET" => Attribute::Set(s), "CLASS" => Attribute::Class(s), "PROCESSOR" => Attribute::Processor(s),
        "SUBSET" => Attribute::Subset(s), "ANNOTATOR" => Attribute::Annotator(s), "ANNOTATORTYPE" => Attribute::AnnotatorType(pt(match v { "manual" => "Manual", "generator" => "Generator", "datasource" => "DataSource", _ => "Auto" })),
        "CONFIDENCE" => Attribute::Confidence(v.parse().expect("HARNESS: float")), "N" => Attribute::N(s),
        "DATETIME" => Attribute::DateTime(chrono::NaiveDateTime::parse_from_str(v, "%Y-%m-%dT%H:%M:%S").expect("HARNESS: datetime")),
        "BEGINTIME" => Attribute::BeginTime(s), "ENDTIME" => Attribute::EndTime(s), "SRC" => Attribute::Src(s), "SPEAKER" => Attribute::Speaker(s),
        "TEXTCLASS" => Attribute::Textclass(s), "METADATA" => Attribute::Metadata(s), "IDREF" => Attribute::Idref(s), "SPACE" => Attribute::Space(v == "yes"),
        "TEXT" => Attribute::Text(s), "TYPE" => Attribute::Type(s), "AUTH" => Attribute::Auth(s), "OFFSET" => Attribute::Offset(v.parse().expect("HARNESS: u16")),
        "REF" => Attribute::Ref(s), "ORIGINAL" => Attribute::Original(s), "LINENR" => Attribute::LineNr(v.parse().expect("HARNESS: u16")),
        "PAGENR" => Attribute::PageNr(s), "NEWPAGE" => Attribute::NewPage(v == "yes"), "XLINKTYPE" => Attribute::XLinkType(s), "HREF" => Attribute::Href(s), "FORMAT" => Attribute::Format(s), "TAG" => Attribute::Tag(s),
        _ => panic!("HARNESS: attribute {}", n),
    }
}

/// the different ways to make the same element
pub fn build(e: &Value) -> ElementData { build_in(&|k| 1_000_000 + k as ElementKey, e) }
/// (`keys`: the keys of the elements there are)
pub fn build_in(keys: &dyn Fn(usize) -> ElementKey, e: &Value) -> ElementData {
    let mut ed = ElementData::new(et(st(&e["t"])));
    let (at, ch) = (arr(&e["at"]), arr(&e["ch"]));
    let hash = e.to_string().bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    let (style, extra) = (hash % 4, (hash / 4) % 8);
    // an attribute that is set again replaces what was set
    if style != 0 && extra < 3 { for a in at { let (n, v) = (st(&a[0]), st(&a[1])); let other = match n { "CONFIDENCE" => "0.125".to_string(), "OFFSET" | "LINENR" => "3".to_string(), "DATETIME" => "2001-01-01T00:00:00".to_string(), _ => format!("{}x", v) }; ed.set_attrib(attr(n, &other)); } }
    match style {
        0 => { ed = ed.with_attribs(at.iter().map(|a| attr(st(&a[0]), st(&a[1]))).collect()); }
        1 => { for a in at { ed.set_attrib(attr(st(&a[0]), st(&a[1]))); } }
        2 => { ed.set_attribs(vec![attr("N", "to be replaced")]); ed.del_attrib(AttribType::N); for a in at { ed = ed.with_attrib(attr(st(&a[0]), st(&a[1]))); } }
        _ => { for a in at { ed = ed.with_attrib(attr(st(&a[0]), st(&a[1]))); } }
    }
    // where it goes is up to what is done with it
    if extra == 6 { ed = ed.with_parent_key(Some(keys(1 + (hash / 32 % 5) as usize))); }
    let simple = |c: &Value| st(&c["k"]) == "X" && st(&c["e"]["t"]) == "WordReference" && arr(&c["e"]["ch"]).is_empty() && arr(&c["e"]["at"]).len() == 1 && st(&c["e"]["at"][0][0]) == "IDREF";
    let one = |c: &Value| match st(&c["k"]) { "T" => DataType::Text(st(&c["s"]).to_string()), "C" => DataType::Comment(st(&c["s"]).to_string()), "A" => DataType::Element(keys(us(&c["n"]))), _ => DataType::AddElement(build_in(keys, &c["e"])) };
    if style == 0 && !ch.is_empty() { // all children, or some, at once
        let size = if extra < 4 { ch.len() } else { 1 + (extra as usize % 2) };
        if extra == 5 { ed.push(DataType::Text("to be removed".to_string())); ed.remove(0); }
        for c in ch.chunks(size) { ed = ed.with_children(c.iter().map(|c| one(c)).collect()); }
        return ed;
    }
    let mut i = 0;
    while i < ch.len() {
        let run = ch[i..].iter().take_while(|c| simple(c)).count();
        if style != 3 && run > 0 {
            let ids: Vec<&str> = ch[i..i + run].iter().map(|c| st(&c["e"]["at"][0][1])).collect();
            ed = ed.with_span(&ids);
            i += run;
            continue;
        }
        let c = &ch[i];
        if style == 1 && st(&c["k"]) == "X" && st(&c["e"]["t"]) == "TextContent" && arr(&c["e"]["at"]).is_empty() && arr(&c["e"]["ch"]).len() == 1 && st(&c["e"]["ch"][0]["k"]) == "T" {
            ed = ed.with_text(st(&c["e"]["ch"][0]["s"]).to_string());
        } else if style == 2 { ed.push(one(c)); }
        else if st(&c["k"]) == "X" { ed = ed.add_element(build_in(keys, &c["e"])); }
        else { ed = ed.with(one(c)); }
        i += 1;
    }
    ed
}

fn clear(mut p: Processor) -> Processor { p.id = String::new(); p.name = String::new(); p.version = String::new(); p.folia_version = String::new(); p.src = String::new(); p.format = String::new(); p.with_type(ProcessorType::Auto) }
pub fn build_proc(p: &Value) -> Processor { build_proc_in(None, p) }
/// (`doc`: where subprocessors that are there already are to be found)
pub fn build_proc_in(doc: Option<&Document>, p: &Value) -> Processor {
    let style = p.to_string().bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 3;
    let mut q = match style { 0 => Processor::default(), 1 => clear(Processor::new("x".to_string())), _ => clear(Processor::this_library()) };
    q = q.with_id(st(&p["id"]).to_string());
    for a in arr(&p["a"]) {
        let v = st(&a[1]).to_string();
        let dt = || chrono::NaiveDateTime::parse_from_str(&v, "%Y-%m-%dT%H:%M:%S").expect("HARNESS: datetime");
        q = match st(&a[0]) {
            "name" => { q.name = v; q }, "type" => q.with_type(pt(&v)), "version" => q.with_version(v), "folia_version" => q.with_folia_version(v),
            "document_version" => q.with_document_version(v), "command" => q.with_command(v), "host" => q.with_host(v), "user" => q.with_user(v),
            "src" => q.with_src(v), "format" => q.with_format(v), "resourcelink" => q.with_resourcelink(v),
            "begindatetime" => { let d = dt(); q.with_begindatetime(d) }, "enddatetime" => { let d = dt(); q.with_enddatetime(d) },
            other => panic!("HARNESS: processor field {}", other),
        };
    }
    for s in arr(&p["subs"]) {
        q = if bo(&s["ex"]) { q.with_existing_subprocessor(doc.and_then(|d| d.get_processor_key_by_id(st(&s["id"]))).unwrap_or(60000)) } else { q.with_new_subprocessor(build_proc_in(doc, s)) };
    }
    q
}

fn cmp<T: std::fmt::Debug>(v: &Value, f: &dyn Fn(&str) -> T) -> Cmp<T> {
    match st(&v[0]) { "Is" => Cmp::Is(f(st(&v[1]))), "Some" => Cmp::Some, "None" => Cmp::None, "Un" => Cmp::Unmatchable, _ => Cmp::Any }
}
fn s2(s: &str) -> String { s.to_string() }

pub fn query(q: &Value) -> Query {
    Query::select().element(cmp(&q["el"], &et)).elementgroup(cmp(&q["gr"], &eg)).contexttype(cmp(&q["ctx"], &et)).set(cmp(&q["set"], &s2)).class(cmp(&q["cls"], &s2))
        .processor(cmp(&q["proc"], &s2)).subset(cmp(&q["sub"], &s2)).annotator(cmp(&q["ann"], &s2)).annotatortype(cmp(&q["annt"], &pt)).confidence(cmp(&q["conf"], &|s| s.parse::<f64>().expect("HARNESS: float")))
}
/// a selector from a query, or made directly
fn selector(doc: &Document, q: &Value) -> Result<Selector, FoliaError> {
    let dt: Vec<&str> = arr(&q["dt"]).iter().map(|x| st(x)).collect();
    let mut sel = if bo(&q["api"]) {
        let base = if dt.first() == Some(&"E") { Selector::elements() } else { Selector::default() };
        base.element(cmp(&q["el"], &et)).elementgroup(cmp(&q["gr"], &eg))
    } else { Selector::from_query(doc, &query(q))? };
    for (i, d) in dt.into_iter().enumerate() { sel = match d { "T" => sel.with_text(), "C" => sel.with_comments(), _ => if i > 0 { sel.with_elements() } else { sel } }; }
    Ok(sel)
}
fn acc(v: &Value) -> Vec<AcceptedData> {
    arr(v).iter().map(|x| if st(&x[0]) == "E" { AcceptedData::AcceptElementType(et(st(&x[1]))) } else { AcceptedData::AcceptElementGroup(eg(st(&x[1]))) }).collect()
}
pub fn recursion(v: &Value) -> Recursion {
    match st(&v[0]) { "No" => Recursion::No, "Limited" => Recursion::LimitedTo(acc(&v[1])), "Except" => Recursion::ExceptFor(acc(&v[1])), _ => Recursion::Always }
}

pub struct Sim { pub doc: Document }

/// result of a call: (Some(true) ok / Some(false) error, value)
pub type Res = (bool, Value);
fn unit(r: Result<(), FoliaError>) -> Res { (r.is_ok(), json!(0)) }
enum Ret { Key(ElementKey), Val(Value) }

pub fn config(op: &Value) -> DocumentProperties { config_in(None, op) }
pub fn config_in(doc: Option<&Document>, op: &Value) -> DocumentProperties {
    let mut p = DocumentProperties::default();
    if st(&op["body"]) == "Speech" { p = p.with_bodytype(BodyType::Speech); }
    if !bo(&op["defdecl"]) { p.declare = vec![]; }
    for d in arr(&op["decl"]) { p = p.with_declaration(ant(st(&d[0])), os(&d[1])); }
    if let Some(pr) = arr(&op["proc"]).get(0) { p = p.with_processor(build_proc_in(doc, pr)); }
    p
}

/// Performs op; `sim` is None before the first new/parse. Returns (ok, value, mutating)
pub fn exec(sim: &mut Option<Sim>, op: &Value) -> (bool, Value, bool) {
    let n = st(&op["n"]);
    match n {
        "new" => {
            return match Document::new(st(&op["id"]), config(op)) { Ok(d) => { *sim = Some(Sim { doc: d }); (true, json!(0), true) }, Err(_) => (false, json!(0), true) };
        }
        "parse" => {
            let r = if bo(&op["file"]) {
                let path = std::env::temp_dir().join(format!("folia-harness-{}.xml", std::process::id()));
                std::fs::write(&path, st(&op["xml"])).expect("HARNESS: temp file");
                let r = Document::from_file(path.to_str().unwrap(), config(op));
                let _ = std::fs::remove_file(&path);
                r
            } else { Document::from_str(st(&op["xml"]), config(op)) };
            return match r { Ok(d) => { *sim = Some(Sim { doc: d }); (true, json!(0), true) }, Err(e) => { if std::env::var("HARNESS_MSG").is_ok() { eprintln!("{:?}", e); } (false, json!(0), true) } };
        }
        _ => {}
    }
    let sim_ = sim.as_mut().expect("HARNESS: no document");
    let c = Canon::new(&sim_.doc);
    let doc = &mut sim_.doc;
    let k = |v: &Value| c.key(us(v));
    let key = |r: Result<ElementKey, FoliaError>| -> (bool, Ret) { match r { Ok(k) => (true, Ret::Key(k)), Err(_) => (false, Ret::Val(json!(0))) } };
    let u = |r: Result<(), FoliaError>| -> (bool, Ret) { (r.is_ok(), Ret::Val(json!(0))) };
    let pk = |doc: &Document, v: &Value| doc.get_processor_key_by_id(st(v)).unwrap_or(60000);
    let (ok, ret): (bool, Ret) = match n {
        "add" => { let e = build_in(&|k| c.key(k), &op["e"]); key(doc.add_element(e)) }
        "addto" => { let e = build_in(&|k| c.key(k), &op["e"]); key(doc.add_element_to(k(&op["par"]), e)) }
        "annotate" => { let e = build_in(&|k| c.key(k), &op["e"]); key(doc.annotate(k(&op["par"]), e)) }
        "annspan" => { let e = build_in(&|k| c.key(k), &op["e"]); key(doc.annotate_span(e)) }
        "attach" => u(doc.attach_element(k(&op["par"]), k(&op["child"]))),
        "detach" => u(doc.detach_element(k(&op["child"]))),
        "declare" => {
            match doc.declare(ant(st(&op["t"])), &os(&op["set"]), &os(&op["al"]), &os(&op["fm"])) {
                Ok(dk) => (true, Ret::Val(json!(dec_id(doc.get_declaration(dk).expect("declaration"))))), Err(_) => (false, Ret::Val(json!(0))) }
        }
        "adddec" => {
            match doc.add_declaration(Declaration::new(ant(st(&op["t"])), os(&op["set"]), os(&op["al"]), os(&op["fm"]))) {
                Ok(dk) => (true, Ret::Val(json!(dec_id(doc.get_declaration(dk).expect("declaration"))))), Err(_) => (false, Ret::Val(json!(0))) }
        }
        "addclass" => {
            let dk = doc.get_declaration_key_by_id(&Declaration::index_id(ant(st(&op["t"])), &os(&op["set"]).as_ref().map(|s| s.as_str()))).unwrap_or(60000);
            let r = doc.add_class(dk, &st(&op["cls"]).to_string());
            match r { Ok(ck) => (true, Ret::Val(json!(doc.get_declaration(dk).and_then(|d| d.get_class(ck)).unwrap_or("!none")))), Err(_) => (false, Ret::Val(json!(0))) }
        }
        // straight to the declaration
        "addsubset" | "addsubclass" | "addowncls" => {
            let id = Declaration::index_id(ant(st(&op["t"])), &os(&op["set"]).as_ref().map(|s| s.as_str()));
            let s = st(&op["s"]).to_string();
            let d = if s.len() % 2 == 0 { doc.get_mut_declaration_by_id(&id) } else { match doc.get_declaration_key_by_id(&id) { Some(k) => doc.get_mut_declaration(k), None => None } };
            match d {
                None => (false, Ret::Val(json!(0))),
                Some(d) => {
                    let back = match n { "addsubset" => d.add_subset(s.into()).ok().and_then(|k| d.get_subset(k)), "addsubclass" => d.add_subclass(s.into()).ok().and_then(|k| d.get_subclass(k)), _ => d.add_class(s.into()).ok().and_then(|k| d.get_class(k)) };
                    match back { Some(b) => (true, Ret::Val(json!(b))), None => (true, Ret::Val(json!("!none"))) }
                }
            }
        }
        "config" => { let p = config_in(Some(doc), op); u(doc.apply_properties(p)) }
        "addproc" => { let p = build_proc_in(Some(doc), &op["p"]); match doc.add_processor(p) { Ok(k) => (true, Ret::Val(json!(doc.get_processor(k).unwrap().id))), Err(_) => (false, Ret::Val(json!(0))) } }
        "addprov" => { let p = build_proc_in(Some(doc), &op["p"]); match doc.add_provenance(p) { Ok(k) => (true, Ret::Val(json!(doc.get_processor(k).unwrap().id))), Err(_) => (false, Ret::Val(json!(0))) } }
        "addsub" => { let p = build_proc_in(Some(doc), &op["p"]); let par = pk(doc, &op["par"]); match doc.add_subprocessor(par, p) { Ok(k) => (true, Ret::Val(json!(doc.get_processor(k).unwrap().id))), Err(_) => (false, Ret::Val(json!(0))) } }
        "attproc" => { let a = pk(doc, &op["par"]); let b = pk(doc, &op["child"]); u(doc.attach_processor(a, b)) }
        "activate" => { let a = pk(doc, &op["p"]); doc.activate_processor(a); (true, Ret::Val(json!(0))) }
        "setproc" => {
            let (k, v) = (st(&op["k"]), st(&op["v"]).to_string());
            let dt = |v: &str| if v.is_empty() { None } else { Some(chrono::NaiveDateTime::parse_from_str(v, "%Y-%m-%dT%H:%M:%S").expect("HARNESS: datetime")) };
            let key = doc.get_processor_key_by_id(st(&op["p"]));
            // by ID or by key
            let p = if k.len() % 2 == 0 { doc.get_mut_processor_by_id(st(&op["p"])) } else { match key { Some(key) => doc.get_mut_processor(key), None => None } };
            match p {
                None => (false, Ret::Val(json!(0))),
                Some(p) => {
                    match k {
                        "name" => p.name = v, "type" => p.processortype = pt(&v), "version" => p.version = v, "folia_version" => p.folia_version = v, "document_version" => p.document_version = v, "command" => p.command = v,
                        "host" => p.host = v, "user" => p.user = v, "src" => p.src = v, "format" => p.format = v, "resourcelink" => p.resourcelink = v,
                        "begindatetime" => p.begindatetime = dt(&v), "enddatetime" => p.enddatetime = dt(&v), other => panic!("HARNESS: processor field {}", other),
                    }
                    (true, Ret::Val(json!(0)))
                }
            }
        }
        "setmeta" => { doc.metadata.data.insert(st(&op["k"]).to_string(), st(&op["v"]).to_string()); (true, Ret::Val(json!(0))) }
        "metasrc" => { doc.metadata.src = os(&op["src"]); doc.metadata.metadatatype = os(&op["type"]); (true, Ret::Val(json!(0))) }
        "submeta" => {
            let mut m = Metadata::default(); m.metadatatype = os(&op["type"]); m.src = os(&op["src"]);
            for d in arr(&op["data"]) { m.data.insert(st(&d[0]).to_string(), st(&d[1]).to_string()); }
            doc.submetadata.insert(st(&op["id"]).to_string(), m); (true, Ret::Val(json!(0)))
        }
        "reload" => {
            match doc.xml(0, us(&op["indent"])) {
                Ok(x) => { let s = String::from_utf8_lossy(&x).to_string(); match Document::from_str(&s, config(op)) { Ok(d) => { sim_.doc = d; return (true, json!(0), true) }, Err(_) => return (false, json!("load"), true) } }
                Err(_) => return (false, json!("xml"), true),
            }
        }
        // ------------------------------------------------------------------ observations
        _ => { let (ok, v) = observe(doc, &c, op); return (ok, v, false); }
    };
    let v = match ret { Ret::Val(v) => v, Ret::Key(k) => { let c2 = Canon::new(&sim_.doc); json!(c2.n(k)) } };
    (ok, v, true)
}

fn nums<'a>(c: &Canon, it: impl Iterator<Item = SelectElementsItem<'a>>, limit: usize) -> Value {
    let v: Vec<usize> = it.take(limit).map(|e| c.n(e.element.key().expect("key"))).collect();
    json!(v)
}
fn num1(c: &Canon, e: Option<Element>) -> Value { match e { Some(e) => json!([c.n(e.key().expect("key"))]), None => json!([]) } }

fn observe(doc: &Document, c: &Canon, op: &Value) -> Res {
    const LIM: usize = 100_000;
    let e = |v: &Value| doc.get_element(c.key(us(v)));
    match st(&op["n"]) {
        "select" => {
            let mut sel: Option<Selector> = None;
            for q in arr(&op["qs"]) {
                match selector(doc, q) {
                    Ok(s) => sel = Some(match sel { None => s, Some(p) => p.and(s) }),
                    Err(_) => return (false, json!(0)),
                }
            }
            let mut sel = sel.unwrap_or_else(Selector::elements);
            if bo(&op["all"]) { sel = Selector::all_data(); }
            let matchable = sel.matchable();
            let rec = recursion(&op["rec"]);
            let (root, incl, span) = (c.key(us(&op["root"])), bo(&op["incl"]), bo(&op["span"]));
            let items = |it: SelectIterator| -> Vec<Value> { it.take(LIM).map(|i| { let mut j = item_json(c, i.data); j["p"] = json!(c.n(i.parent_key)); j["c"] = json!(i.cursor); j["d"] = json!(i.depth); j }).collect() };
            // there is more than one way to ask for it
            let differs = |what: &str| -> Res { (true, json!({ "differs": what })) };
            if let Some(el) = doc.get_element(root) {
                match st(&op["via"]) {
                    "data" => {
                        let a = items(doc.select_data_by_key(root, sel.clone(), rec.clone(), false, span));
                        if items(el.select_data(sel.clone(), rec.clone(), span)) != a { return differs("Element::select_data"); }
                        if items(el.select_data_by_key(root, sel.clone(), rec.clone(), incl, span)) != items(doc.select_data_by_key(root, sel.clone(), rec.clone(), incl, span)) { return differs("Element::select_data_by_key"); }
                        if root == 0 && items(doc.select_data(sel.clone(), rec.clone(), span)) != a { return differs("Document::select_data"); }
                    }
                    "bykey" => if nums(c, el.select_by_key(root, sel.clone(), rec.clone(), incl, span), LIM) != nums(c, doc.select_by_key(root, sel.clone(), rec.clone(), incl, span), LIM) { return differs("Element::select_by_key"); },
                    _ => {}
                }
            }
            let (ok, v) = match st(&op["via"]) {
                "data" => {
                    (true, json!(items(doc.select_data_by_key(root, sel, rec, incl, span))))
                }
                "elem" => match doc.get_element(root) { Some(el) => (true, nums(c, el.select(sel, rec), LIM)), None => (false, json!(0)) },
                "doc" => (true, nums(c, doc.select(sel, rec), LIM)),
                _ => (true, nums(c, doc.select_by_key(root, sel, rec, incl, span), LIM)),
            };
            // a selector that says it can not match anything matches nothing
            if !matchable && v.as_array().map(|v| !v.is_empty()).unwrap_or(false) { return (true, json!("matches but is not matchable")); }
            (ok, v)
        }
        "anc" => {
            let s = match Selector::from_query(doc, &query(&op["q"])) { Ok(s) => s, Err(_) => return (false, json!(0)) };
            let k = c.key(us(&op["e"]));
            let a = nums(c, doc.ancestors_by_key(k, s.clone()), 1000);
            let b = match doc.get_element(k) { Some(el) => nums(c, el.ancestors(s), 1000), None => json!([]) };
            if op["rec"].is_null() { return (true, json!({"bykey": a, "elem": b})); }
            let l = nums(c, AncestorIterator::new(doc, Selector::from_query(doc, &query(&op["q"])).expect("selector"), k, recursion(&op["rec"])), 1000);
            (true, json!({"bykey": a, "elem": b, "lim": l}))
        }
        "getanc" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            let (ty, gr) = (&op["t"], &op["g"]);
            let set = || cmp(&op["set"], &s2);
            let r = if st(ty) != "" { json!({"all": nums(c, el.get_ancestors(et(st(ty)), set()), 1000), "first": num1(c, el.get_ancestor(et(st(ty)), set()))}) }
                else { json!({"all": nums(c, el.get_ancestors_by_group(eg(st(gr)), set()), 1000), "first": num1(c, el.get_ancestor_by_group(eg(st(gr)), set()))}) };
            (true, r)
        }
        "common" => {
            let s = match Selector::from_query(doc, &query(&op["q"])) { Ok(s) => s, Err(_) => return (false, json!(0)) };
            let ks: Vec<ElementKey> = arr(&op["es"]).iter().map(|x| c.key(us(x))).collect();
            (true, json!(doc.common_ancestors(s, &ks).iter().map(|k| c.n(*k)).collect::<Vec<usize>>()))
        }
        "getels" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            let set = || cmp(&op["set"], &s2);
            let rec = || recursion(&op["rec"]);
            if st(&op["via"]) == "ann" {
                let a = ant(st(&op["t"]));
                (true, json!({"all": nums(c, el.get_annotations(a, set(), rec()), LIM), "first": num1(c, el.get_annotation(a, set(), rec()))}))
            } else {
                let t = et(st(&op["t"]));
                (true, json!({"all": nums(c, el.get_elements(t, set(), rec()), LIM), "first": num1(c, el.get_element(t, set(), rec()))}))
            }
        }
        "feats" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            let sub = || cmp(&op["sub"], &s2);
            (true, json!({"all": nums(c, el.get_features(sub()), LIM), "first": num1(c, el.get_feature(sub()))}))
        }
        "text" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!("")) };
            let tp = TextParameters::default().textclass(st(&op["cls"])).retaintokenisation(bo(&op["ret"]));
            let tp = match arr(&op["set"]).get(0) { Some(s) => tp.set(st(s)), None => tp };
            let r = el.text(&tp);
            let show = |r: &Result<String, FoliaError>| match r { Ok(s) => Some(s.clone()), Err(_) => None };
            // there is more than one way to ask for it
            if show(&doc.text(c.key(us(&op["e"])), &tp)) != show(&r) { return (true, json!({"differs": "Document::text"})); }
            let set = match arr(&op["set"]).get(0) { Some(s) => st(s), None => folia::DEFAULT_TEXT_SET };
            if let Some(dk) = doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(set))) {
                if let Ok(ck) = doc.class_key(dk, st(&op["cls"])) {
                    if show(&doc.text_by_key(c.key(us(&op["e"])), dk, ck, false, bo(&op["ret"]))) != show(&r) { return (true, json!({"differs": "text_by_key"})); }
                }
            }
            match r { Ok(s) => (true, json!(s)), Err(_) => (false, json!("")) }
        }
        "display" => {
            use std::fmt::Write;
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!("")) };
            let mut s = String::new();
            match write!(s, "{}", el) { Ok(_) => (true, json!(s)), Err(_) => (false, json!("")) }
        }
        "delim" => match e(&op["e"]) { Some(el) => match el.get_textdelimiter(bo(&op["ret"])) { Ok(s) => (true, json!(s.to_string())), Err(_) => (false, json!("")) }, None => (false, json!("")) },
        "layer" => match doc.get_layer_key(c.key(us(&op["e"])), ant(st(&op["t"])), os(&op["set"]).as_ref().map(|s| s.as_str())) {
            Ok(Some(k)) => (true, json!([c.n(k)])), Ok(None) => (true, json!([])), Err(_) => (false, json!(0)) },
        "spankeys" => (true, json!(doc.get_span_keys(&build_in(&|k| c.key(k), &op["e"])).iter().map(|k| c.n(*k)).collect::<Vec<usize>>())),
        "defset" => (true, optstr(doc.get_default_set(ant(st(&op["t"]))))),
        "getdec" => (true, match doc.get_declaration_by_id(&Declaration::index_id(ant(st(&op["t"])), &os(&op["set"]).as_ref().map(|s| s.as_str()))) { Some(d) => json!([dec_id(d)]), None => json!([]) }),
        "byid" => {
            let a = match doc.get_element_key_by_id(st(&op["id"])) { Some(k) => json!([c.n(k)]), None => json!([]) };
            let b = match doc.get_element_by_id(st(&op["id"])) { Some(el) => json!([c.n(el.key().expect("key"))]), None => json!([]) };
            let d = match doc.get_element_by_id(st(&op["id"])) { Some(el) => optstr(el.id()), None => json!([]) };
            (true, json!({"key": a, "elem": b, "id": d}))
        }
        "rel" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            (true, json!({"index": match el.get_index() { Some(i) => json!([i]), None => json!([]) }, "parent": num1(c, el.get_parent()), "resolve": num1(c, el.resolve())}))
        }
        "addable" => {
            let ed = ElementData::new(et(st(&op["t"])));
            (doc.check_element_addable(c.key(us(&op["e"])), &ed).is_ok(), json!(0))
        }
        "xml" => match doc.xml(c.key(us(&op["e"])), us(&op["indent"])) { Ok(x) => match String::from_utf8(x) { Ok(s) => (true, json!(s)), Err(_) => (true, json!("!not utf-8")) }, Err(_) => (false, json!("")) },
        "exml" => match e(&op["e"]) { Some(el) => match el.xml(us(&op["indent"])) { Ok(s) => (true, json!(s)), Err(_) => (false, json!("")) }, None => (false, json!("")) },
        "annot" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            (true, json!({"annotator": optstr(el.annotator()), "type": match el.annotatortype() { Some(t) => json!([format!("{:?}", t)]), None => json!([]) },
              "conf": match el.elementdata_pub().confidence() { Some(f) => json!([f.to_string()]), None => json!([]) }}))
        }
        "look" => {
            let el = match e(&op["e"]) { Some(x) => x, None => return (false, json!(0)) };
            let data = el.elementdata_pub();
            let names: Vec<&str> = arr(&op["as"]).iter().map(|a| st(a)).collect();
            let types: Vec<AttribType> = names.iter().map(|n| attr(n, match *n { "CONFIDENCE" | "OFFSET" | "LINENR" => "1", "DATETIME" => "2020-01-01T00:00:00", _ => "x" }).attribtype()).collect();
            let val = |a: Option<&Attribute>| match a { Some(a) => json!([a.to_string().unwrap_or("!".to_string())]), None => json!([]) };
            let set = optstr(el.set());
            (true, json!({"t": name_of(&el.elementtype()), "id": optstr(el.id()), "set": set, "cls": optstr(el.class()), "sub": optstr(el.subset()), "proc": optstr(el.processor()),
                "at": types.iter().map(|t| val(el.attrib(*t))).collect::<Vec<Value>>(), "has": types.iter().map(|t| json!(el.has_attrib(*t))).collect::<Vec<Value>>(),
                "dat": types.iter().map(|t| if data.has_attrib(*t) { val(data.attrib(*t)) } else { json!([]) }).collect::<Vec<Value>>(),
                "dec": match el.get_declaration() { Some(d) => json!([dec_id(d)]), None => json!([]) }, "prc": match el.get_processor() { Some(p) => json!([p.id.clone()]), None => json!([]) } }))
        }
        "cmp" => { let have: Option<String> = arr(&op["have"]).first().map(|x| st(x).to_string()); (true, json!(cmp(&op["c"], &s2).matches(have.as_ref()))) }
        "receval" => (true, json!(recursion(&op["rec"]).eval(et(st(&op["t"]))))),
        "lookup" => { // the classes and subsets of a declaration
            let dk = match doc.get_declaration_key_by_id(&Declaration::index_id(ant(st(&op["t"])), &os(&op["set"]).as_ref().map(|s| s.as_str()))) { Some(k) => k, None => return (false, json!(0)) };
            let d = doc.get_declaration(dk).expect("declaration");
            let s = st(&op["s"]);
            let a = match doc.class_key(dk, s) { Ok(k) => Some(k), Err(_) => None };
            if a != d.class_key(s) { return (true, json!("class_key differs")); }
            (true, json!({"cls": optstr(a.and_then(|k| d.get_class(k))), "sub": optstr(d.subset_key(s).and_then(|k| d.get_subset(k))), "scls": optstr(d.subclass_key(s).and_then(|k| d.get_subclass(k))),
                "def": match d.default_processor() { Some(k) => json!([doc.get_processor(k).map(|p| p.id.clone()).unwrap_or("!".to_string())]), None => json!([]) } }))
        }
        "built" => { // an element that is not in a document (yet)
            let mut ed = build(&op["e"]);
            let s = |r: Result<Option<&str>, FoliaError>| match r { Ok(Some(s)) => json!([s]), Ok(None) => json!([]), Err(_) => json!("!") };
            let kinds = |ed: &ElementData| -> Value { json!((0..ed.len() + 1).filter_map(|i| ed.get_data_at(i)).map(|d| match d { DataType::Text(_) => "T", DataType::Comment(_) => "C", DataType::AddElement(_) => "X", DataType::Element(_) => "A", _ => "?" }).collect::<Vec<&str>>()) };
            let mut v = json!({"id": s(Ok(ed.id())), "idref": s(Ok(ed.idref())), "set": s(ed.set()), "cls": s(ed.class()), "sub": s(ed.subset()), "proc": s(ed.processor()),
                "conf": match ed.confidence() { Some(f) => json!([f.to_string()]), None => json!([]) }, "kinds": kinds(&ed), "empty": ed.is_empty(), "n": ed.attribs().len()});
            let at = us(&op["rm"]);
            let gone = match ed.remove(at) { None => "", Some(DataType::Text(_)) => "T", Some(DataType::Comment(_)) => "C", Some(DataType::AddElement(_)) => "X", Some(DataType::Element(_)) => "A", Some(_) => "?" };
            v["gone"] = json!(gone); v["left"] = kinds(&ed);
            (true, v)
        }
        other => panic!("HARNESS: unknown op {}", other),
    }
}

trait Pub { fn elementdata_pub(&self) -> &ElementData; }
impl<'a> Pub for Element<'a> { fn elementdata_pub(&self) -> &ElementData { <Self as ReadElement>::elementdata(self) } }
