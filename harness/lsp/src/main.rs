// Applies the text rewriting of lsp-proxy and whippyunits-pretty to one JSON request per line.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use whippyunits_lsp_proxy::{unit_formatter::UnitFormatter, DisplayConfig, LspProxy};
use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
fn body(m: &str) -> Value { let i = m.find("\r\n\r\n").map_or(0, |i| i + 4); serde_json::from_str(&m[i..]).unwrap_or(json!({"bad": m})) }
fn apply(q: &Value) -> Value {
    let c = DisplayConfig { verbose: q["verbose"].as_bool().unwrap(), unicode: true, include_raw: q["raw"].as_bool().unwrap() };
    let t = q["text"].as_str().unwrap_or("");
    let f = UnitFormatter::new();
    let msg = |r: Value| { let b = serde_json::to_string(&json!({"jsonrpc": "2.0", "id": 1, "result": r})).unwrap(); format!("Content-Length: {}\r\n\r\n{}", b.len(), b) };
    let send = |r: Value| { let o = body(&LspProxy::with_config(c.clone()).process_incoming(&msg(r)).unwrap()); o["result"].clone() };
    match q["f"].as_str().unwrap() {
        "types" => json!(f.format_types(t, &c)),
        "inlay" => json!(f.format_types_inlay_hint(t, &c)),
        "original" => json!(f.format_types_with_original(t, &c, t)),
        "extract" => json!(f.extract_raw_type_from_hover(t)),
        "hover" => send(json!({"contents": {"kind": "markdown", "value": t}}))["contents"]["value"].clone(),
        "hovers" => send(json!({"contents": [{"language": "rust", "value": t}]}))["contents"][0]["value"].clone(),
        "hints" | "hint" => send(q["hint"].clone()),
        "line" => json!(RustcPrettyPrinter::with_config(c).process_line(t).unwrap()),
        "output" => json!(RustcPrettyPrinter::with_config(c).process_rustc_output(t).unwrap()),
        "message" => json!(LspProxy::with_config(c).process_incoming(t).unwrap()),
        x => panic!("{x}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout(); let mut out = out.lock();
    for l in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let r = std::panic::catch_unwind(|| apply(&q)).unwrap_or(json!({"panic": true}));
        writeln!(out, "{}", serde_json::to_string(&r).unwrap()).unwrap();
    }
}
