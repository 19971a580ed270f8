//! Generates, from a type and its serde attributes as they stand in the source, the
//! specification functions `ser` and `de` that state what serde's derive does for it.
//! Anything the generator does not know is an error (the property then counts as undecided).
use syn::punctuated::Punctuated;

fn toks(t: &impl quote::ToTokens) -> String { quote::quote!(#t).to_string() }
fn fty(t: &syn::Type) -> String { toks(t).replace("Cow <", "crate::vx::Cow <") }

#[derive(Default, Clone, Debug)]
struct At {
    rename_ser: Option<String>, rename_de: Option<String>, alias: Vec<String>, default: Option<Option<String>>, skip_if: Option<String>, flatten: bool, skip_ser: bool, skip_de: bool,
    untagged: bool, tag: Option<String>, content: Option<String>, rename_all: Option<String>, rename_all_fields: Option<String>, other: bool, deny_unknown: bool,
}

fn parse_attrs(attrs: &[syn::Attribute]) -> Result<At, String> {
    let mut a = At::default();
    for x in attrs {
        if !x.path().is_ident("serde") { continue }
        let l = match &x.meta { syn::Meta::List(l) => l, _ => return Err("serde attribute without a list".into()) };
        let metas = l.parse_args_with(Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
        for m in metas {
            let name = toks(m.path());
            let s = |m: &syn::Meta| -> Result<String, String> { match m { syn::Meta::NameValue(nv) => match &nv.value { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Ok(s.value()), _ => Err("serde value is not a string".into()) }, _ => Err(format!("serde({}) needs a value", toks(m.path()))) } };
            match name.as_str() {
                "rename" => match &m {
                    syn::Meta::List(l) => {
                        for n in l.parse_args_with(Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())? {
                            match toks(n.path()).as_str() { "serialize" => a.rename_ser = Some(s(&n)?), "deserialize" => a.rename_de = Some(s(&n)?), x => return Err(format!("serde(rename({}))", x)) }
                        }
                    }
                    _ => { let v = s(&m)?; a.rename_ser = Some(v.clone()); a.rename_de = Some(v) }
                },
                "alias" => a.alias.push(s(&m)?),
                "default" => a.default = Some(match &m { syn::Meta::Path(_) => None, _ => Some(s(&m)?) }),
                "skip_serializing_if" => a.skip_if = Some(s(&m)?),
                "flatten" => a.flatten = true,
                "skip" => { a.skip_ser = true; a.skip_de = true }
                "skip_serializing" => a.skip_ser = true,
                "skip_deserializing" => a.skip_de = true,
                "untagged" => a.untagged = true,
                "tag" => a.tag = Some(s(&m)?),
                "content" => a.content = Some(s(&m)?),
                "rename_all" => a.rename_all = Some(s(&m)?),
                "rename_all_fields" => a.rename_all_fields = Some(s(&m)?),
                "other" => a.other = true,
                "deny_unknown_fields" => a.deny_unknown = true,
                "borrow" => {}
                x => return Err(format!("serde attribute `{}` is not modelled", x)),
            }
        }
    }
    Ok(a)
}

/// serde's renaming rules; `variant` names start in PascalCase, field names in snake_case
fn rename_rule(rule: &str, n: &str, variant: bool) -> Result<String, String> {
    let words: Vec<String> = if variant {
        // serde treats every upper case letter as the start of a word
        let mut w: Vec<String> = vec![];
        for c in n.chars() { if c.is_uppercase() || w.is_empty() { w.push(String::new()) } w.last_mut().unwrap().push(c.to_ascii_lowercase()) }
        w
    } else { n.split('_').map(|s| s.to_string()).collect() };
    let cap = |s: &str| { let mut c = s.chars(); match c.next() { Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(), None => String::new() } };
    Ok(match (rule, variant) {
        ("lowercase", true) => n.to_ascii_lowercase(), ("lowercase", false) => n.to_string(),
        ("UPPERCASE", _) => n.to_ascii_uppercase(),
        ("PascalCase", true) => n.to_string(), ("PascalCase", false) => words.iter().map(|w| cap(w)).collect(),
        ("camelCase", true) => { let mut c = n.chars(); c.next().map(|f| f.to_ascii_lowercase().to_string()).unwrap_or_default() + c.as_str() }
        ("camelCase", false) => { let p: String = words.iter().map(|w| cap(w)).collect(); let mut c = p.chars(); c.next().map(|f| f.to_ascii_lowercase().to_string()).unwrap_or_default() + c.as_str() }
        ("snake_case", true) => words.join("_"), ("snake_case", false) => n.to_string(),
        ("SCREAMING_SNAKE_CASE", true) => words.join("_").to_ascii_uppercase(), ("SCREAMING_SNAKE_CASE", false) => n.to_ascii_uppercase(),
        ("kebab-case", true) => words.join("-"), ("kebab-case", false) => n.replace('_', "-"),
        ("SCREAMING-KEBAB-CASE", true) => words.join("-").to_ascii_uppercase(), ("SCREAMING-KEBAB-CASE", false) => n.to_ascii_uppercase().replace('_', "-"),
        (x, _) => return Err(format!("rename_all = {}", x)),
    })
}

struct Fld { name: String, ty: String, ser: String, de: String, a: At }

fn fields(fs: &syn::FieldsNamed, rule: Option<&str>) -> Result<Vec<Fld>, String> {
    let mut v = vec![];
    for f in &fs.named {
        let a = parse_attrs(&f.attrs)?;
        let name = f.ident.as_ref().unwrap().to_string();
        let raw = name.trim_start_matches("r#").to_string();
        let base = match rule { Some(r) => rename_rule(r, &raw, false)?, None => raw };
        let ser = a.rename_ser.clone().unwrap_or_else(|| base.clone());
        let de = a.rename_de.clone().unwrap_or(base);
        v.push(Fld { name, ty: fty(&f.ty), ser, de, a });
    }
    if v.iter().filter(|f| f.a.flatten).count() > 1 { return Err("more than one flattened field".into()) }
    Ok(v)
}

/// the members written for the fields, as a Map expression; `p` maps a field name to its value
fn ser_map(fs: &[Fld], p: &dyn Fn(&str) -> String) -> Result<String, String> {
    let mut o = String::from("{ let m = Map::<Seq<char>, crate::serde_json::Value>::empty();\n");
    for f in fs {
        let v = p(&f.name);
        if f.a.skip_ser { continue }
        let step = if f.a.flatten { format!("m.union_prefer_right(crate::serde_json::members(crate::serde_json::JsonT::ser({})))", v) }
            else { format!("m.insert({:?}@, crate::serde_json::JsonT::ser({}))", f.ser, v) };
        let step = match &f.a.skip_if {
            None => step,
            Some(s) => {
                let c = match s.replace(' ', "").as_str() { "Option::is_none" => format!("{} is None", v), "HashMap::is_empty" => format!("crate::vx::hm({}).len() == 0", v), "Vec::is_empty" => format!("{}@.len() == 0", v), "String::is_empty" => format!("{}@.len() == 0", v),
                    x => return Err(format!("skip_serializing_if = {}", x)) };
                format!("(if {} {{ m }} else {{ {} }})", c, step)
            }
        };
        o.push_str(&format!("let m = {};\n", step));
    }
    o.push_str("m }");
    Ok(o)
}

/// reads the fields from the members `m`; an Option of the value built by `ctor`
fn de_fields(fs: &[Fld], ctor: &str, deny: bool, container_default: bool) -> Result<String, String> {
    if container_default { return Err("default on the container".into()) }
    let mut o = String::from("{\n");
    let mut names: Vec<String> = vec![];
    for f in fs { if !f.a.flatten && !f.a.skip_de { names.push(f.de.clone()); names.extend(f.a.alias.iter().cloned()) } }
    let mut conds = vec![];
    for f in fs {
        let missing = match &f.a.default {
            None if f.a.skip_de => format!("Some(<{} as crate::serde_json::JsonDefault>::dflt())", f.ty),
            None => format!("<{} as crate::serde_json::JsonT>::missing()", f.ty),
            Some(None) => format!("Some(<{} as crate::serde_json::JsonDefault>::dflt())", f.ty),
            Some(Some(p)) => format!("Some({}_spec())", p),
        };
        if f.a.skip_de { o.push_str(&format!("let v_{}: Option<{}> = {};\n", f.name, f.ty, missing)); continue }
        if f.a.flatten {
            let mut rest = String::from("m");
            let mut sorted = names.clone(); sorted.sort(); for n in &sorted { rest.push_str(&format!(".remove({:?}@)", n)) }
            o.push_str(&format!("let v_{}: Option<{}> = crate::serde_json::JsonT::de(crate::serde_json::Value::Object(crate::serde_json::obj_of({})));\n", f.name, f.ty, rest));
        } else {
            let mut e = format!("if m.contains_key({:?}@) {{ crate::serde_json::JsonT::de(m[{:?}@]) }}", f.de, f.de);
            for a in &f.a.alias { e.push_str(&format!(" else if m.contains_key({:?}@) {{ crate::serde_json::JsonT::de(m[{:?}@]) }}", a, a)); conds.push(format!("!(m.contains_key({:?}@) && m.contains_key({:?}@))", f.de, a)) }
            o.push_str(&format!("let v_{}: Option<{}> = {} else {{ {} }};\n", f.name, f.ty, e, missing));
        }
    }
    for f in fs { conds.push(format!("v_{} is Some", f.name)) }
    if deny { conds.push(format!("m.dom().subset_of(set![{}])", names.iter().map(|n| format!("{:?}@", n)).collect::<Vec<_>>().join(", "))) }
    if conds.is_empty() { conds.push("true".into()) }
    o.push_str(&format!("if {} {{ Some({} {{ {} }}) }} else {{ None }}\n}}", conds.join(" && "), ctor, fs.iter().map(|f| format!("{}: v_{}->0", f.name, f.name)).collect::<Vec<_>>().join(", ")));
    Ok(o)
}

const OBJ: &str = "crate::serde_json::Value::Object(crate::serde_json::obj_of(";

fn wrap(name: &str, g: &syn::Generics, ser: &str, de: &str) -> String {
    let (ig, tg, _) = g.split_for_impl();
    format!("impl{} crate::serde_json::JsonT for {}{} {{\nopen spec fn ser(self) -> crate::serde_json::Value {{ {} }}\nopen spec fn de(j: crate::serde_json::Value) -> Option<Self> {{ {} }}\nopen spec fn missing() -> Option<Self> {{ None }}\n}}\n", toks(&ig), name, toks(&tg), ser, de)
}

pub fn gen_struct(s: &syn::ItemStruct) -> Result<String, String> {
    let a = parse_attrs(&s.attrs)?;
    let fs = match &s.fields { syn::Fields::Named(n) => fields(n, a.rename_all.as_deref())?, _ => return Err("not a struct with named fields".into()) };
    let flat = fs.iter().any(|f| f.a.flatten);
    let ser = format!("{}{}))", OBJ, ser_map(&fs, &|n| format!("self.{}", n))?);
    let name = s.ident.to_string();
    let de = format!("match j {{ crate::serde_json::Value::Object(o) => {{ let m = o.jm(); {} }}, crate::serde_json::Value::Array(_) => {}, _ => None }}", de_fields(&fs, &name, a.deny_unknown, a.default.is_some())?, if flat { "None".to_string() } else { format!("crate::serde_json::de_other::<{}{}>(j)", name, toks(&s.generics.split_for_impl().1)) });
    Ok(wrap(&name, &s.generics, &ser, &de))
}

pub fn gen_enum(e: &syn::ItemEnum, derives: &[String]) -> Result<String, String> {
    let a = parse_attrs(&e.attrs)?;
    let name = e.ident.to_string();
    let me = format!("{}{}", name, toks(&e.generics.split_for_impl().1));
    let vname = |v: &syn::Variant, at: &At| -> Result<(String, String), String> {
        let n = v.ident.to_string();
        let b = match &a.rename_all { Some(r) => rename_rule(r, &n, true)?, None => n };
        Ok((at.rename_ser.clone().unwrap_or_else(|| b.clone()), at.rename_de.clone().unwrap_or(b)))
    };
    let mut vs = vec![];
    for v in &e.variants { let at = parse_attrs(&v.attrs)?; if at.skip_ser || at.skip_de { return Err("skipped variant".into()) } let n = vname(v, &at)?; vs.push((v, at, n)) }
    if derives.iter().any(|d| d == "Deserialize_enum_str") {
        if !derives.iter().any(|d| d == "Serialize_enum_str") { return Err("only half of the serde_enum_str derives".into()) }
        let (mut ser, mut de, mut other) = (String::from("match self { "), String::from("match j { crate::serde_json::Value::String(s) => "), None);
        for (v, at, n) in &vs {
            match &v.fields {
                syn::Fields::Unit => { ser.push_str(&format!("{}::{} => crate::serde_json::Value::String(crate::vx::str_of({:?}@)), ", name, v.ident, n.0));
                    let mut c = format!("s@ == {:?}@", n.1); for al in &at.alias { c.push_str(&format!(" || s@ == {:?}@", al)) }
                    de.push_str(&format!("if {} {{ Some({}::{}) }} else ", c, name, v.ident)) }
                syn::Fields::Unnamed(_) if at.other => { ser.push_str(&format!("{}::{}(s) => crate::serde_json::Value::String(s), ", name, v.ident)); other = Some(v.ident.to_string()) }
                _ => return Err("variant form of an enum_str".into()),
            }
        }
        ser.push('}');
        de.push_str(&match other { Some(o) => format!("{{ Some({}::{}(s)) }}", name, o), None => "{ None }".into() });
        de.push_str(", _ => None }");
        return Ok(wrap(&name, &e.generics, &ser, &de));
    }
    let rule = |at: &At| at.rename_all.clone().or(a.rename_all_fields.clone());
    let named = |v: &syn::Variant, at: &At| -> Result<Vec<Fld>, String> { match &v.fields { syn::Fields::Named(n) => fields(n, rule(at).as_deref()), _ => Err("variant without named fields".into()) } };
    let pat = |fs: &[Fld]| fs.iter().map(|f| f.name.clone()).collect::<Vec<_>>().join(", ");
    if a.untagged {
        let mut ser = String::from("match self { "); let mut de = String::new(); let mut close = String::new();
        for (v, at, _) in &vs {
            let fs = named(v, at)?;
            ser.push_str(&format!("{}::{} {{ {} }} => {}{})), ", name, v.ident, pat(&fs), OBJ, ser_map(&fs, &|n| n.to_string())?));
            let flat = fs.iter().any(|f| f.a.flatten);
            de.push_str(&format!("{{ let t: Option<Self> = match j {{ crate::serde_json::Value::Object(o) => {{ let m = o.jm(); {} }}, crate::serde_json::Value::Array(_) => {}, _ => None }};\nif t is Some {{ t }} else ",
                de_fields(&fs, &format!("{}::{}", name, v.ident), at.deny_unknown || a.deny_unknown, false)?, if flat { "None".to_string() } else { format!("crate::serde_json::de_other::<{}>(j)", me) }));
            close.push('}');
        }
        ser.push('}');
        return Ok(wrap(&name, &e.generics, &ser, &format!("{}{{ None }}{}", de, close)));
    }
    match (&a.tag, &a.content) {
        (Some(t), Some(c)) => {
            if t == c { return Err("tag and content have one name".into()) }
            let mut ser = String::from("match self { "); let mut de = format!("match j {{ crate::serde_json::Value::Object(o) => {{ let mo = o.jm(); if !mo.contains_key({:?}@) {{ None }} else {{ match mo[{:?}@] {{ crate::serde_json::Value::String(s) => ", t, t);
            for (v, at, n) in &vs {
                if at.other { return Err("other variant of a tagged enum".into()) }
                if let syn::Fields::Unit = v.fields { return Err("unit variant of a tagged enum".into()) }
                let fs = named(v, at)?;
                ser.push_str(&format!("{}::{} {{ {} }} => {}Map::<Seq<char>, crate::serde_json::Value>::empty().insert({:?}@, crate::serde_json::Value::String(crate::vx::str_of({:?}@))).insert({:?}@, {}{}))))), ", name, v.ident, pat(&fs), OBJ, t, n.0, c, OBJ, ser_map(&fs, &|n| n.to_string())?));
                let mut cnd = format!("s@ == {:?}@", n.1); for al in &at.alias { cnd.push_str(&format!(" || s@ == {:?}@", al)) }
                let flat = fs.iter().any(|f| f.a.flatten);
                de.push_str(&format!("if {} {{ if !mo.contains_key({:?}@) {{ None }} else {{ match mo[{:?}@] {{ crate::serde_json::Value::Object(o2) => {{ let m = o2.jm(); {} }}, crate::serde_json::Value::Array(_) => {}, _ => None }} }} }} else ", cnd, c, c,
                    de_fields(&fs, &format!("{}::{}", name, v.ident), at.deny_unknown, false)?, if flat { "None".to_string() } else { format!("crate::serde_json::de_other::<{}>(j)", me) }));
            }
            ser.push('}');
            de.push_str(&format!("{{ None }}, _ => crate::serde_json::de_other::<{}>(j) }} }} }}, crate::serde_json::Value::Array(_) => crate::serde_json::de_other::<{}>(j), _ => None }}", me, me));
            if a.deny_unknown { return Err("deny_unknown_fields on a tagged enum".into()) }
            Ok(wrap(&name, &e.generics, &ser, &de))
        }
        (None, None) => {
            // externally tagged: only unit variants occur
            let mut ser = String::from("match self { "); let mut de = String::from("match j { crate::serde_json::Value::String(s) => ");
            let mut other = None;
            for (v, at, n) in &vs {
                if !matches!(v.fields, syn::Fields::Unit) { return Err("externally tagged enum with data".into()) }
                ser.push_str(&format!("{}::{} => crate::serde_json::Value::String(crate::vx::str_of({:?}@)), ", name, v.ident, n.0));
                let mut c = format!("s@ == {:?}@", n.1); for al in &at.alias { c.push_str(&format!(" || s@ == {:?}@", al)) }
                de.push_str(&format!("if {} {{ Some({}::{}) }} else ", c, name, v.ident));
                if at.other { other = Some(v.ident.to_string()) }
            }
            ser.push('}');
            de.push_str(&match other { Some(o) => format!("{{ Some({}::{}) }}", name, o), None => "{ None }".into() });
            de.push_str(&format!(", crate::serde_json::Value::Object(_) => crate::serde_json::de_other::<{}>(j), _ => None }}", me));
            Ok(wrap(&name, &e.generics, &ser, &de))
        }
        _ => Err("internally tagged enum".into()),
    }
}
