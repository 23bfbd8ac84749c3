//! One check per property.
mod api;
mod codec;
mod format;
mod more;
mod extra;
mod huge;
mod whole;
mod common;
mod ingest;
mod local;
mod ngram;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(codec::props());
    v.extend(format::props());
    v.extend(more::props());
    v.extend(extra::props());
    v.extend(whole::props());
    v.extend(ngram::props());
    v.extend(api::props());
    v.extend(ingest::props());
    v.extend(local::props());
    v.sort_by_key(|p| p.id);
    v
}

const COMMON: &str = "single-threaded use; product ids are unique; texts contain no NUL character";
const JS: &str = "JavaScript values behave as in the native stand-in under /verif/shim (own properties, strict equality, Reflect.get on missing keys gives undefined)";

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![COMMON];
    if id == "C33" {
        v = vec!["single-threaded use; handlers are used with options and tags of their own index"];
    }
    match id {
        "C02" | "C03" | "C24" | "C28" => {}
        "C09" | "C10" | "C14" => v.push("confidences are compared with a relative tolerance of 1e-4 or finer; equally likely resolutions are interchangeable"),
        "C12" | "C13" => v.push("queries whose best resolution is a tie are not used to decide"),
        "C04" => v.push("'out of proportion' means more than 16 MiB plus 4096 bytes per input byte at any time"),
        "C21" => v.push("order of observer calls is not specified"),
        _ => {}
    }
    if matches!(id, "C10" | "C11" | "C12" | "C13" | "C14" | "C16" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" | "C23" | "C25" | "C26" | "C27" | "C29" | "C30" | "C32" | "C33" | "C35" | "C37" | "C38") {
        v.push(JS);
    }
    v
}
