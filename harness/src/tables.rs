//! Dump of the FoLiA vocabulary through the public interface of the library.
use crate::state::name_of;
use folia::*;
use serde_json::{json, Value};
use std::panic::catch_unwind;
use std::str::FromStr;

fn types() -> Vec<ElementType> { let mut v: Vec<ElementType> = Specification::default().properties.keys().cloned().collect(); v.sort_by_key(|t| name_of(t)); v }
pub const GROUPS: [&str; 11] = ["Layer", "Content", "CorrectionChild", "HigherOrder", "Inline", "Span", "SpanRole", "Structure", "Subtoken", "TextMarkup", "Feature"];
pub const ANNS: [&str; 58] = ["TEXT","TOKEN","DIVISION","PARAGRAPH","HEAD","LIST","FIGURE","WHITESPACE","LINEBREAK","SENTENCE","POS","LEMMA","DOMAIN","SENSE","SYNTAX","CHUNKING","ENTITY","CORRECTION","ERRORDETECTION","PHON","SUBJECTIVITY","MORPHOLOGICAL","EVENT","DEPENDENCY","TIMESEGMENT","GAP","QUOTE","NOTE","REFERENCE","RELATION","SPANRELATION","COREFERENCE","SEMROLE","METRIC","LANG","STRING","TABLE","STYLE","PART","UTTERANCE","ENTRY","TERM","DEFINITION","EXAMPLE","PHONOLOGICAL","PREDICATE","OBSERVATION","SENTIMENT","STATEMENT","ALTERNATIVE","RAWCONTENT","COMMENT","DESCRIPTION","HYPHENATION","HIDDENTOKEN","MODALITY","EXTERNAL","HSPACE"];

const ALLAT: [AttribType; 31] = { use AttribType::*; [ID, SET, CLASS, ANNOTATOR, ANNOTATORTYPE, CONFIDENCE, N, DATETIME, BEGINTIME, ENDTIME, SRC, SPEAKER, TEXTCLASS, METADATA, IDREF, SPACE, PROCESSOR, HREF, FORMAT, SUBSET, TEXT, TYPE, AUTH, OFFSET, REF, ORIGINAL, LINENR, PAGENR, NEWPAGE, XLINKTYPE, TAG] };

fn acc(v: &[AcceptedData], g: bool) -> Vec<String> {
    v.iter().filter_map(|a| match a { AcceptedData::AcceptElementType(t) => if g { None } else { Some(name_of(t)) }, AcceptedData::AcceptElementGroup(t) => if g { Some(name_of(t)) } else { None } }).collect()
}
fn safe<F: FnOnce() -> Value + std::panic::UnwindSafe>(f: F) -> Value { catch_unwind(f).unwrap_or(json!("!panic")) }

pub fn dump() -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let spec = Specification::default();
    let els: Vec<Value> = types().into_iter().map(|t| {
        let p = spec.get(t);
        let tag = t.as_str();
        let back = match ElementType::from_str(tag) { Ok(b) => json!([name_of(&b)]), Err(_) => json!([]) };
        let into: &str = t.into();
        json!({"t": name_of(&t), "tag": tag, "disp": format!("{}", t), "into": into, "back": back, "xmltag": p.xmltag,
            "ann": match t.annotationtype() { Some(a) => json!([name_of(&a)]), None => json!([]) },
            "pann": match p.annotationtype { Some(a) => json!([name_of(&a)]), None => json!([]) },
            "groups": GROUPS.iter().filter(|g| crate::exec::eg(g).contains(t)).collect::<Vec<_>>(),
            "ingroups": GROUPS.iter().filter(|g| t.is_in_group(crate::exec::eg(g))).collect::<Vec<_>>(),
            "acce": acc(p.accepted_data, false), "accg": acc(p.accepted_data, true), "reqe": acc(p.required_data, false), "reqg": acc(p.required_data, true),
            "reqa": p.required_attribs.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>(), "opta": p.optional_attribs.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>(),
            "occ": p.occurrences, "occs": p.occurrences_per_set, "delim": match p.textdelimiter { Some(s) => json!([s]), None => json!([]) },
            "printable": p.printable, "speakable": p.speakable, "hidden": p.hidden, "xlink": p.xlink, "tc": p.textcontainer, "pc": p.phoncontainer,
            "subset": match p.subset { Some(s) => json!([s]), None => json!([]) }, "auth": p.auth, "primary": p.primaryelement, "autoid": p.auto_generate_id,
            "setonly": p.setonly, "wrefable": p.wrefable, "label": p.label})
    }).collect();
    let anns: Vec<Value> = ANNS.iter().map(|a| {
        let a_ = crate::exec::ant(a);
        let into: &str = a_.into();
        let iel: ElementType = a_.into();
        json!({"a": a, "name": a_.as_str(), "disp": format!("{}", a_), "into": into, "back": match AnnotationType::from_str(a_.as_str()) { Some(b) => json!([name_of(&b)]), None => json!([]) },
            "el": name_of(&a_.elementtype()), "intoel": name_of(&iel), "elstr": safe(move || json!(a_.as_element_str())), "layer": match a_.layertype() { Some(l) => json!([name_of(&l)]), None => json!([]) }})
    }).collect();
    let groups: Vec<Value> = GROUPS.iter().map(|g| { let g_ = crate::exec::eg(g); json!({"g": g, "m": g_.elementtypes().iter().map(|t| name_of(t)).collect::<Vec<_>>()}) }).collect();
    let mut bad: Vec<String> = vec![];
    for s in ["", "W", "word", "foo", "w ", "text-annotation", "FoLiA", "entitie", "T"].iter() { if ElementType::from_str(s).is_ok() { bad.push(s.to_string()); } }
    for s in ["", "POS", "pos ", "foo", "tokens", "w"].iter() { if AnnotationType::from_str(s).is_some() { bad.push(format!("ann {}", s)); } }
    let ats: Vec<Value> = ALLAT.iter().map(|a| {
            let s: &str = (*a).into();
            let n = format!("{:?}", a);
            let v = match n.as_str() { "CONFIDENCE" => "0.5", "DATETIME" => "2020-02-29T23:59:59", "ANNOTATORTYPE" => "manual", "OFFSET" | "LINENR" => "12", "SPACE" | "NEWPAGE" => "no", _ => "v" };
            let x = crate::exec::attr(&n, v);
            let same: Vec<String> = ALLAT.iter().filter(|b| x.sametype(&crate::exec::attr(&format!("{:?}", b), match format!("{:?}", b).as_str() { "CONFIDENCE" => "1", "DATETIME" => "2020-02-29T23:59:59", "OFFSET" | "LINENR" => "3", _ => "yes" }))).map(|b| format!("{:?}", b)).collect();
            let shown = |r: Result<String, FoliaError>| match r { Ok(s) => json!([s]), Err(_) => json!([]) };
            let (x1, x2) = (x.clone(), x.clone());
            json!({"a": n, "name": s, "disp": format!("{}", a), "type": format!("{:?}", x.attribtype()), "class": format!("{:?}", x.attribtypeclass()), "enc": x.encodable(), "dec": x.decodable(),
                "same": same, "str": shown(x.as_str().map(|s| s.to_string())), "text": shown(x.to_string()), "vdisp": safe(move || json!([format!("{}", x1)])), "value": v, "self": x2 == x})
        }).collect();
    let pts: Vec<Value> = [ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource].iter().map(|t| json!({"t": format!("{:?}", t), "name": t.as_str(), "disp": format!("{}", t)})).collect();
    let pdef = format!("{:?}", ProcessorType::default());
    json!({"els": els, "anns": anns, "groups": groups, "badnames": bad, "attribs": ats, "pts": pts, "pdef": pdef, "foliaversion": FOLIAVERSION, "textset": DEFAULT_TEXT_SET})
}
