//! C13 round trip, C14 malformed input, C15 stdio framing, C16 event streams.
use crate::ctx::Ctx;
use crate::explore::*;
use pmcp::shared::sse_parser::{SseEvent, SseParser};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::protocol::*;
use pmcp::types::{JSONRPCNotification, JSONRPCRequest, JSONRPCResponse, RequestId};
use serde_json::{json, Map, Value};

// ------------------------------------------------------------ wire forms

/// all objects with the required members and every choice for the optional ones
fn subsets(req: Value, opts: &[(&str, Vec<Value>)]) -> Vec<Value> {
    let mut out = vec![req];
    for (k, vs) in opts {
        let mut next = out.clone();
        for o in &out {
            for v in vs {
                let mut o = o.clone();
                o.as_object_mut().unwrap().insert((*k).into(), v.clone());
                next.push(o);
            }
        }
        out = next;
    }
    out
}

pub struct Form {
    pub method: &'static str,
    pub notification: bool,
    /// parameter objects ("$S" text, "$V" any JSON value); None: no params
    pub params: Vec<Option<Value>>,
}

fn req(method: &'static str, params: Vec<Value>) -> Form {
    Form { method, notification: false, params: params.into_iter().map(Some).collect() }
}
fn opt(mut f: Form) -> Form {
    f.params.push(None);
    f.params.push(Some(json!({})));
    f
}

fn content() -> Vec<Value> {
    let mut v = vec![json!({"type": "text", "text": "$S"}), json!({"type": "image", "data": "$S", "mimeType": "$S"})];
    v.extend(subsets(json!({"type": "resource", "uri": "$S"}), &[("text", vec![json!("$S")]), ("mimeType", vec![json!("$S")])]));
    v
}

fn client_caps() -> Vec<Value> {
    let lc = || vec![json!({}), json!({"listChanged": true}), json!({"listChanged": false})];
    let mut v = subsets(
        json!({}),
        &[
            ("tools", vec![json!({"listChanged": true})]),
            ("prompts", vec![json!({})]),
            ("resources", vec![json!({"subscribe": true, "listChanged": false})]),
            ("logging", vec![json!({"levels": ["$S", "$S"]})]),
            ("sampling", vec![json!({}), json!({"models": ["$S"]})]),
            ("roots", vec![json!({"listChanged": true})]),
            ("experimental", vec![json!({"x": "$V"})]),
        ],
    );
    for k in ["tools", "prompts", "roots"] {
        v.extend(lc().into_iter().map(|c| json!({k: c})));
    }
    v
}

fn server_caps() -> Vec<Value> {
    let mut v = client_caps();
    for c in &mut v {
        c.as_object_mut().unwrap().remove("roots");
    }
    v.push(json!({"completions": {}}));
    v
}

fn create_message() -> Vec<Value> {
    let mut v = vec![];
    for c in content() {
        for r in ["user", "assistant", "system"] {
            v.push(json!({"messages": [{"role": r, "content": c}], "includeContext": "none"}));
        }
    }
    v.extend(subsets(
        json!({"messages": []}),
        &[
            ("modelPreferences", vec![json!({}), json!({"hints": [{"name": "$S"}, {}], "costPriority": 0.5}), json!({"speedPriority": 0.25, "intelligencePriority": 1.0})]),
            ("systemPrompt", vec![json!("$S")]),
            ("includeContext", vec![json!("none"), json!("all"), json!("thisServerOnly")]),
            ("temperature", vec![json!(0.5)]),
            ("maxTokens", vec![json!(0), json!(4294967295u32)]),
            ("stopSequences", vec![json!([]), json!(["$S", "$S"])]),
            ("metadata", vec![json!("$V")]),
        ],
    ));
    v
}

/// Every request and notification with every combination of optional members.
pub fn forms() -> Vec<Form> {
    let uri = || vec![json!({"uri": "$S"})];
    let cursor = || subsets(json!({}), &[("cursor", vec![json!("$S")])]);
    let inputs = ["text", "textarea", "boolean", "number", "select", "multiSelect", "filePath", "directoryPath", "password", "date", "time", "dateTime", "color", "url", "email"];
    let mut elicit: Vec<Value> = inputs.iter().map(|i| json!({"elicitationId": "$S", "inputType": i, "prompt": "$S"})).collect();
    let validation = subsets(
        json!({"required": true}),
        &[
            ("min", vec![json!(1.5)]),
            ("max", vec![json!(2.5)]),
            ("pattern", vec![json!("$S")]),
            ("options", vec![json!([{"value": "$V", "label": "$S", "disabled": true}, {"value": 1, "label": "$S", "description": "$S"}])]),
            ("message", vec![json!("$S")]),
        ],
    );
    elicit.extend(subsets(
        json!({"elicitationId": "$S", "inputType": "select", "prompt": "$S"}),
        &[("description", vec![json!("$S")]), ("default", vec![json!("$V")]), ("validation", validation), ("extra", vec![json!("$V")])],
    ));
    let levels = |ls: &[&str]| ls.iter().map(|l| json!({"level": l})).collect::<Vec<_>>();
    let note = |method, params: Vec<Option<Value>>| Form { method, notification: true, params };
    vec![
        req("initialize", client_caps().into_iter().map(|c| json!({"protocolVersion": "$S", "capabilities": c, "clientInfo": {"name": "$S", "version": "$S"}})).collect()),
        opt(req("tools/list", cursor())),
        req("tools/call", subsets(json!({"name": "$S"}), &[("arguments", vec![json!({"$S": "$V"}), json!({})])])),
        opt(req("prompts/list", cursor())),
        req("prompts/get", subsets(json!({"name": "$S"}), &[("arguments", vec![json!({"k": "$S", "l": "$S"}), json!({})])])),
        opt(req("resources/list", cursor())),
        opt(req("resources/templates/list", cursor())),
        req("resources/read", uri()),
        req("resources/subscribe", uri()),
        req("resources/unsubscribe", uri()),
        req(
            "completion/complete",
            vec![
                json!({"ref": {"type": "ref/resource", "uri": "$S"}, "argument": {"name": "$S", "value": "$S"}}),
                json!({"ref": {"type": "ref/prompt", "name": "$S"}, "argument": {"name": "$S", "value": "$S"}}),
            ],
        ),
        req("logging/setLevel", levels(&["debug", "info", "warning", "error", "critical"])),
        opt(req("ping", vec![])),
        req("sampling/createMessage", create_message()),
        req(
            "elicitation/response",
            subsets(json!({"elicitationId": "$S"}), &[("value", vec![json!("$V")]), ("cancelled", vec![json!(true), json!(false)]), ("error", vec![json!("$S")])]),
        ),
        opt(req("roots/list", vec![])),
        req("elicitation/elicitInput", elicit),
        note("notifications/initialized", vec![None, Some(json!({}))]),
        note("notifications/roots/list_changed", vec![None, Some(json!({}))]),
        note("notifications/tools/list_changed", vec![None, Some(json!({}))]),
        note("notifications/prompts/list_changed", vec![None, Some(json!({}))]),
        note("notifications/resources/list_changed", vec![None, Some(json!({}))]),
        note("notifications/resources/updated", vec![Some(json!({"uri": "$S"}))]),
        note(
            "notifications/cancelled",
            [json!("$S"), json!(0), json!(-7), json!(i64::MAX)].into_iter().flat_map(|i| subsets(json!({"requestId": i}), &[("reason", vec![json!("$S")])])).map(Some).collect(),
        ),
        note(
            "notifications/progress",
            [json!("$S"), json!(7), json!(i64::MIN)]
                .into_iter()
                .flat_map(|t| [json!(0), json!(0.5), json!(100), json!(-1.25)].into_iter().flat_map(move |p| subsets(json!({"progressToken": t.clone(), "progress": p}), &[("message", vec![json!("$S")])])))
                .map(Some)
                .collect(),
        ),
        note(
            "notifications/message",
            ["debug", "info", "warning", "error"]
                .iter()
                .flat_map(|l| subsets(json!({"level": l, "message": "$S"}), &[("logger", vec![json!("$S")]), ("data", vec![json!("$V")])]))
                .map(Some)
                .collect(),
        ),
    ]
}

pub const TEXTS: &[&str] = &["a", "", " ", "é", "\u{0}", "\"\\/\u{8}\u{c}\n\r\t", "\u{7f}\u{80}\u{2028}\u{feff}", "😀", "{\"id\":1}", "null", "true", "1", "${x}", "a\r\nb"];

pub fn any_values() -> Vec<Value> {
    vec![
        json!({"a": [1, {"b": null}], "c": "d"}),
        json!(0),
        json!(-1),
        json!(i64::MIN),
        json!(u64::MAX),
        json!(1.5),
        json!(-1e300),
        json!(true),
        json!(false),
        json!(""),
        json!("x\u{0}y\""),
        json!([]),
        json!([[], {}, [null]]),
        json!({}),
        json!({"": 1, "method": "ping", "id": 3, "result": {}, "error": {}, "jsonrpc": "x"}),
        json!({"é": "😀"}),
    ]
}

/// fill in text and values; texts differ from leaf to leaf
fn fill(v: &Value, text: &str, any: &Value, n: &mut usize) -> Value {
    match v {
        Value::String(s) if s == "$S" => {
            *n += 1;
            // an empty text is empty everywhere; others are told apart
            json!(if *n == 1 || text.is_empty() { text.to_string() } else { format!("{text}{n}") })
        },
        Value::String(s) if s == "$V" => any.clone(),
        Value::Array(a) => Value::Array(a.iter().map(|x| fill(x, text, any, n)).collect()),
        Value::Object(m) => Value::Object(
            m.iter()
                .map(|(k, x)| {
                    let k = if k == "$S" { text.to_string() } else { k.clone() };
                    (k, fill(x, text, any, n))
                })
                .collect(),
        ),
        v => v.clone(),
    }
}
fn has(v: &Value, m: &str) -> bool {
    match v {
        Value::String(s) => s == m,
        Value::Array(a) => a.iter().any(|x| has(x, m)),
        Value::Object(o) => o.iter().any(|(k, x)| k == m || has(x, m)),
        _ => false,
    }
}

fn is_default(v: &Value) -> bool {
    match v {
        Value::Null | Value::Bool(false) => true,
        Value::Array(a) => a.is_empty(),
        Value::Object(o) => o.is_empty(),
        Value::String(s) => s == "none",
        _ => false,
    }
}
fn num_eq(a: &Value, b: &Value) -> bool {
    a == b || (a.is_number() && b.is_number() && (a.is_f64() || b.is_f64()) && a.as_f64() == b.as_f64())
}
/// the same content, up to members that hold a default and are left out
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.iter().all(|(k, v)| y.get(k).map_or_else(|| is_default(v), |w| same(v, w))) && y.iter().all(|(k, w)| x.contains_key(k) || is_default(w))
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        (Value::Null, Value::Object(o)) | (Value::Object(o), Value::Null) => o.is_empty(),
        _ => num_eq(a, b),
    }
}

fn kind(m: &TransportMessage) -> &'static str {
    match m {
        TransportMessage::Request { .. } => "request",
        TransportMessage::Response(_) => "response",
        TransportMessage::Notification(_) => "notification",
    }
}
fn encode(m: &TransportMessage) -> Result<Value, String> {
    let b = StdioTransport::serialize_message(m).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| format!("encoded text is not JSON: {e}"))
}

/// one wire object: decode, compare, encode, decode again
fn round_trip(o: &mut Outcome, want_kind: &str, w: &Value) {
    let key = w["method"].as_str().unwrap_or("response").to_string();
    let text = serde_json::to_vec(w).unwrap();
    let m = match StdioTransport::parse_message(&text) {
        Ok(m) => m,
        Err(e) => {
            o.fail(format!("refused:{key}"), format!("{w} was refused: {e}"));
            return;
        },
    };
    if kind(&m) != want_kind {
        o.fail(format!("kind:{key}"), format!("{w} was read as a {}", kind(&m)));
        return;
    }
    let want_id: Option<RequestId> = w.get("id").map(|i| serde_json::from_value(i.clone()).unwrap());
    let id = match &m {
        TransportMessage::Request { id, .. } => Some(id.clone()),
        TransportMessage::Response(r) => Some(r.id.clone()),
        TransportMessage::Notification(_) => None,
    };
    if id != want_id {
        o.fail(format!("id:{key}"), format!("{w} was read with id {id:?}"));
    }
    let w2 = match encode(&m) {
        Ok(v) => v,
        Err(e) => {
            o.fail(format!("encode:{key}"), format!("{w}: {e}"));
            return;
        },
    };
    if w2["jsonrpc"] != "2.0" || !w2.is_object() {
        o.fail("not-jsonrpc", format!("{w} is encoded as {w2}"));
    }
    if w2.get("id") != w.get("id") || w2.get("method") != w.get("method") {
        o.fail(format!("envelope:{key}"), format!("{w} is encoded as {w2}"));
    }
    let strict = want_kind == "response";
    let ok = if strict { w == &w2 } else { same(w.get("params").unwrap_or(&Value::Null), w2.get("params").unwrap_or(&Value::Null)) };
    if !ok {
        o.fail(format!("content:{key}"), format!("{w} came back as {w2}"));
    }
    // a message put away as a value (as a stored event is)
    match serde_json::to_value(&m).and_then(serde_json::from_value::<TransportMessage>) {
        Ok(back) => {
            if encode(&back).ok().as_ref() != Some(&w2) {
                o.fail(format!("stored:{key}"), format!("{w} stored as {} came back as {:?}", serde_json::to_value(&m).unwrap(), encode(&back)));
            }
        },
        Err(e) => o.fail(format!("stored:{key}"), format!("{w}, stored as {:?}: {e}", serde_json::to_value(&m))),
    }
    let t2 = serde_json::to_vec(&w2).unwrap();
    match StdioTransport::parse_message(&t2) {
        Ok(m2) => {
            if kind(&m2) != kind(&m) || encode(&m2).ok().as_ref() != Some(&w2) {
                o.fail(format!("second-trip:{key}"), format!("{w2} came back as {:?}", encode(&m2)));
            }
        },
        Err(e) => o.fail(format!("own-encoding-refused:{key}"), format!("{w2}: {e}")),
    }
}

fn ids() -> Vec<Value> {
    vec![json!(1), json!(0), json!(-5), json!(i64::MAX), json!(i64::MIN), json!(""), json!("1"), json!("a\u{0}\"é"), json!("x".repeat(3000))]
}

fn wire(f: &Form, id: Option<&Value>, p: Option<&Value>) -> Value {
    let mut m = Map::new();
    m.insert("jsonrpc".into(), json!("2.0"));
    if let Some(i) = id {
        m.insert("id".into(), i.clone());
    }
    m.insert("method".into(), json!(f.method));
    if let Some(p) = p {
        m.insert("params".into(), p.clone());
    }
    Value::Object(m)
}

/// every instance of a form's parameter template
fn instances(p: &Value, thorough: bool) -> Vec<Value> {
    let mut out = vec![];
    let vals = any_values();
    let texts: Vec<&str> = if has(p, "$S") { TEXTS.to_vec() } else { vec!["a"] };
    let anys: Vec<&Value> = if has(p, "$V") { vals.iter().collect() } else { vec![&vals[0]] };
    for (i, t) in texts.iter().enumerate() {
        for (j, a) in anys.iter().enumerate() {
            if thorough || i == 0 || j == 0 {
                out.push(fill(p, t, a, &mut 0));
            }
        }
    }
    out
}

fn typed_result<T: serde::Serialize + serde::de::DeserializeOwned>(o: &mut Outcome, name: &str, w: &Value) {
    match serde_json::from_value::<T>(w.clone()) {
        Ok(t) => match serde_json::to_value(&t) {
            Ok(v) if same(w, &v) => {},
            v => o.fail(format!("result:{name}"), format!("{w} came back as {v:?}")),
        },
        Err(e) => o.fail(format!("result-refused:{name}"), format!("{w}: {e}")),
    }
    // and through text inside a response
    let r = JSONRPCResponse { jsonrpc: "2.0".into(), id: RequestId::Number(1), payload: ResponsePayload::<Value, _>::Result(w.clone()) };
    match encode(&TransportMessage::Response(r)) {
        Ok(v) if v["result"] == *w => {},
        v => o.fail("result-envelope", format!("{w}: {v:?}")),
    }
}

pub fn c13(ctx: &Ctx) {
    let fs = forms();
    let th = ctx.thorough();
    let cases: Vec<(usize, usize)> = fs.iter().enumerate().flat_map(|(i, f)| (0..f.params.len()).map(move |j| (i, j))).collect();
    for_all(ctx, "every method, optional member combination and text", cases, |&(i, j)| {
        let f = &fs[i];
        let mut o = Outcome::default();
        let id1 = json!("q");
        match &f.params[j] {
            None => {
                if f.notification {
                    round_trip(&mut o, "notification", &wire(f, None, None));
                } else {
                    for id in ids() {
                        round_trip(&mut o, "request", &wire(f, Some(&id), None));
                        o.transitions += 1;
                    }
                }
            },
            Some(p) => {
                for (k, p) in instances(p, th).into_iter().enumerate() {
                    o.transitions += 1;
                    if f.notification {
                        round_trip(&mut o, "notification", &wire(f, None, Some(&p)));
                    } else if k == 0 {
                        for id in ids() {
                            round_trip(&mut o, "request", &wire(f, Some(&id), Some(&p)));
                        }
                    } else {
                        round_trip(&mut o, "request", &wire(f, Some(&id1), Some(&p)));
                    }
                }
            },
        }
        o.observed = format!("{i} {j}");
        o
    });
    // responses
    let mut payloads: Vec<Value> = any_values().into_iter().map(|v| json!({"result": v})).collect();
    payloads.push(json!({"result": null}));
    for code in [-32700i32, -32600, -32601, -32602, -32603, -32000, -32099, 0, 1, -1, i32::MAX, i32::MIN] {
        for t in TEXTS {
            payloads.push(json!({"error": {"code": code, "message": t}}));
        }
        for v in any_values() {
            payloads.push(json!({"error": {"code": code, "message": "m", "data": v}}));
        }
    }
    for_all(ctx, "responses", payloads, |p| {
        let mut o = Outcome::default();
        for id in ids() {
            let mut m = Map::new();
            m.insert("jsonrpc".into(), json!("2.0"));
            m.insert("id".into(), id);
            m.extend(p.as_object().unwrap().clone());
            let w = Value::Object(m);
            round_trip(&mut o, "response", &w);
            // the response type on its own, and its accessors
            match serde_json::from_value::<JSONRPCResponse>(w.clone()) {
                Ok(r) => {
                    let is_err = w.get("error").is_some();
                    if r.is_error() != is_err || r.is_success() == is_err || r.result().is_some() == is_err || r.get_error().is_some() != is_err {
                        o.fail("response-accessors", format!("{w}"));
                    }
                    if serde_json::to_value(&r).ok() != Some(w.clone()) {
                        o.fail("response-type", format!("{w} came back as {:?}", serde_json::to_value(&r)));
                    }
                    let rebuilt = match &r.payload {
                        ResponsePayload::Result(v) => JSONRPCResponse::success(r.id.clone(), v.clone()),
                        ResponsePayload::Error(e) => JSONRPCResponse::error(r.id.clone(), e.clone()),
                    };
                    if serde_json::to_value(&rebuilt).ok() != Some(w.clone()) {
                        o.fail("response-constructors", format!("{w}"));
                    }
                },
                Err(e) => o.fail("response-type", format!("{w}: {e}")),
            }
            o.transitions += 1;
        }
        o.observed = p.to_string();
        o
    });
    // the generic request / notification types
    for_all(ctx, "generic request and notification types", any_values(), |v| {
        let mut o = Outcome::default();
        for t in TEXTS {
            for id in ids() {
                for p in [None, Some(v.clone())] {
                    let r = JSONRPCRequest::new(serde_json::from_value::<RequestId>(id.clone()).unwrap(), *t, p.clone());
                    let w = serde_json::to_value(&r).unwrap();
                    let mut want = json!({"jsonrpc": "2.0", "id": id, "method": t});
                    if let Some(p) = &p {
                        want["params"] = p.clone();
                    }
                    if w != want {
                        o.fail("request-type", format!("{w} vs {want}"));
                    }
                    let back: Result<JSONRPCRequest, _> = serde_json::from_value(w.clone());
                    if !back.is_ok_and(|b| b.id == r.id && b.method == r.method && b.params == r.params && b.validate().is_ok()) {
                        o.fail("request-type", format!("{w}"));
                    }
                    let n = JSONRPCNotification::new(*t, p.clone());
                    let w = serde_json::to_value(&n).unwrap();
                    let back: Result<JSONRPCNotification, _> = serde_json::from_value(w.clone());
                    if w.get("id").is_some() || !back.is_ok_and(|b| b.method == n.method && b.params == n.params) {
                        o.fail("notification-type", format!("{w}"));
                    }
                    o.transitions += 2;
                }
            }
        }
        o
    });
    // result types
    let mut results: Vec<(&str, Value)> = vec![];
    for c in server_caps() {
        results.extend(subsets(json!({"protocolVersion": "$S", "capabilities": c, "serverInfo": {"name": "$S", "version": "$S"}}), &[("instructions", vec![json!("$S")])]).into_iter().map(|v| ("initialize", v)));
    }
    let next = ("nextCursor", vec![json!("$S")]);
    for t in subsets(json!({"name": "$S", "inputSchema": "$V"}), &[("description", vec![json!("$S")])]) {
        results.extend(subsets(json!({"tools": [t]}), &[next.clone()]).into_iter().map(|v| ("tools/list", v)));
    }
    for c in content() {
        results.push(("tools/call", json!({"content": [c], "isError": true})));
        results.push(("tools/call", json!({"content": [c, c]})));
        results.push(("resources/read", json!({"contents": [c]})));
        results.extend(subsets(json!({"messages": [{"role": "user", "content": c}, {"role": "assistant", "content": c}]}), &[("description", vec![json!("$S")])]).into_iter().map(|v| ("prompts/get", v)));
        results.extend(
            subsets(json!({"content": c, "model": "$S"}), &[("usage", vec![json!({"inputTokens": 1, "outputTokens": 2, "totalTokens": 3})]), ("stopReason", vec![json!("$S")])])
                .into_iter()
                .map(|v| ("sampling/createMessage", v)),
        );
    }
    let arg = subsets(json!({"name": "$S"}), &[("description", vec![json!("$S")]), ("required", vec![json!(true)])]);
    for p in subsets(json!({"name": "$S"}), &[("description", vec![json!("$S")]), ("arguments", vec![json!([]), json!(arg)])]) {
        results.extend(subsets(json!({"prompts": [p]}), &[next.clone()]).into_iter().map(|v| ("prompts/list", v)));
    }
    for r in subsets(json!({"uri": "$S", "name": "$S"}), &[("description", vec![json!("$S")]), ("mimeType", vec![json!("$S")])]) {
        results.extend(subsets(json!({"resources": [r]}), &[next.clone()]).into_iter().map(|v| ("resources/list", v)));
    }
    for r in subsets(json!({"uriTemplate": "$S", "name": "$S"}), &[("description", vec![json!("$S")]), ("mimeType", vec![json!("$S")])]) {
        results.extend(subsets(json!({"resourceTemplates": [r]}), &[next.clone()]).into_iter().map(|v| ("resources/templates/list", v)));
    }
    for v in subsets(json!({"values": ["$S", "$S"]}), &[("total", vec![json!(0), json!(5)]), ("hasMore", vec![json!(true)])]) {
        results.push(("completion/complete", json!({"completion": v})));
    }
    for_all(ctx, "result types", results, |(name, t)| {
        let mut o = Outcome::default();
        for w in instances(t, true) {
            o.transitions += 1;
            match *name {
                "initialize" => typed_result::<InitializeResult>(&mut o, name, &w),
                "tools/list" => typed_result::<ListToolsResult>(&mut o, name, &w),
                "tools/call" => typed_result::<CallToolResult>(&mut o, name, &w),
                "resources/read" => typed_result::<ReadResourceResult>(&mut o, name, &w),
                "prompts/get" => typed_result::<GetPromptResult>(&mut o, name, &w),
                "sampling/createMessage" => typed_result::<CreateMessageResult>(&mut o, name, &w),
                "prompts/list" => typed_result::<ListPromptsResult>(&mut o, name, &w),
                "resources/list" => typed_result::<ListResourcesResult>(&mut o, name, &w),
                "resources/templates/list" => typed_result::<ListResourceTemplatesResult>(&mut o, name, &w),
                _ => typed_result::<CompleteResult>(&mut o, name, &w),
            }
        }
        o.observed = t.to_string();
        o
    });
    // official wire forms the types above do not cover
    let official: Vec<(&str, Value)> = vec![
        ("log-level", json!({"jsonrpc": "2.0", "id": 1, "method": "logging/setLevel", "params": {"level": "notice"}})),
        ("log-level", json!({"jsonrpc": "2.0", "id": 1, "method": "logging/setLevel", "params": {"level": "alert"}})),
        ("log-level", json!({"jsonrpc": "2.0", "id": 1, "method": "logging/setLevel", "params": {"level": "emergency"}})),
        ("log-message", json!({"jsonrpc": "2.0", "method": "notifications/message", "params": {"level": "info", "data": "x"}})),
        ("include-context", json!({"jsonrpc": "2.0", "id": 1, "method": "sampling/createMessage", "params": {"messages": [], "includeContext": "allServers", "maxTokens": 1}})),
        ("elicitation-create", json!({"jsonrpc": "2.0", "id": 1, "method": "elicitation/create", "params": {"message": "m", "requestedSchema": {}}})),
        ("meta", json!({"jsonrpc": "2.0", "id": 1, "method": "tools/call", "params": {"name": "t", "_meta": {"progressToken": 1}}})),
        ("meta", json!({"jsonrpc": "2.0", "id": 1, "method": "ping", "params": {"_meta": {"progressToken": 1}}})),
        ("title", json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"protocolVersion": "2025-06-18", "capabilities": {"elicitation": {}}, "clientInfo": {"name": "n", "title": "t", "version": "1"}}})),
    ];
    for_all(ctx, "official forms", official, |(k, w)| {
        let mut o = Outcome::default();
        if let Err(e) = StdioTransport::parse_message(w.to_string().as_bytes()) {
            o.fail(format!("official:{k}"), format!("{w}: {e}"));
        }
        o
    });
}

// ------------------------------------------------------------ C14

/// known parameter members of each method: (name, required, type)
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    S,
    Any,
    Num,
    Id,
    Obj,
    Arr,
    Level,
    StrMap,
    Bool,
    Ctx,
    Int,
}
fn members(method: &str) -> Option<&'static [(&'static str, bool, Ty)]> {
    use Ty::*;
    Some(match method {
        "initialize" => &[("protocolVersion", true, S), ("capabilities", true, Obj), ("clientInfo", true, Obj)],
        "tools/list" | "prompts/list" | "resources/list" | "resources/templates/list" => &[("cursor", false, S)],
        "tools/call" => &[("name", true, S), ("arguments", false, Any)],
        "prompts/get" => &[("name", true, S), ("arguments", false, StrMap)],
        "resources/read" | "resources/subscribe" | "resources/unsubscribe" | "notifications/resources/updated" => &[("uri", true, S)],
        "completion/complete" => &[("ref", true, Obj), ("argument", true, Obj)],
        "logging/setLevel" => &[("level", true, Level)],
        "sampling/createMessage" => &[
            ("messages", true, Arr),
            ("modelPreferences", false, Obj),
            ("systemPrompt", false, S),
            ("includeContext", false, Ctx),
            ("temperature", false, Num),
            ("maxTokens", false, Int),
            ("stopSequences", false, Arr),
            ("metadata", false, Any),
        ],
        "elicitation/response" => &[("elicitationId", true, S), ("value", false, Any), ("cancelled", false, Bool), ("error", false, S)],
        "elicitation/elicitInput" => &[("elicitationId", true, S), ("inputType", true, S), ("prompt", true, S), ("description", false, S), ("default", false, Any), ("validation", false, Obj)],
        "ping" | "roots/list" | "notifications/initialized" | "notifications/roots/list_changed" | "notifications/tools/list_changed" | "notifications/prompts/list_changed" | "notifications/resources/list_changed" => &[],
        "notifications/cancelled" => &[("requestId", true, Id), ("reason", false, S)],
        "notifications/progress" => &[("progressToken", true, Id), ("progress", true, Num), ("message", false, S)],
        "notifications/message" => &[("level", true, Level), ("message", true, S), ("logger", false, S), ("data", false, Any)],
        _ => return None,
    })
}
fn ty_ok(v: &Value, t: Ty) -> bool {
    match t {
        Ty::S => v.is_string(),
        Ty::Any => true,
        Ty::Num => v.is_number(),
        Ty::Id => v.is_string() || v.is_i64(),
        Ty::Obj => v.is_object() || v.is_array(),
        Ty::Arr => v.is_array(),
        Ty::Level => v.is_string(),
        Ty::StrMap => v.as_object().is_some_and(|m| m.values().all(Value::is_string)),
        Ty::Bool => v.is_boolean(),
        Ty::Ctx => v.is_string(),
        Ty::Int => v.is_u64(),
    }
}

/// Could `params` be the parameters of `method`?  None: not decided here.
fn params_plausible(method: &str, params: Option<&Value>) -> Option<bool> {
    let ms = members(method)?;
    let p = match params {
        None | Some(Value::Null) => return Some(!ms.iter().any(|m| m.1)),
        Some(Value::Array(_)) => return None,
        Some(Value::Object(m)) => m,
        Some(_) => return Some(false),
    };
    for (k, required, t) in ms {
        match p.get(*k) {
            None if *required => return Some(false),
            None => {},
            Some(Value::Null) if *t == Ty::Any => {},
            Some(Value::Null) if *required => return Some(false),
            Some(Value::Null) => {
                if matches!(t, Ty::Bool | Ty::StrMap | Ty::Ctx) {
                    return None; // null for a member with a default
                }
            },
            Some(v) if !ty_ok(v, *t) => return Some(false),
            Some(_) => {},
        }
    }
    None
}

/// Judge one input text.
fn c14_judge(o: &mut Outcome, text: &[u8]) {
    let show = || String::from_utf8_lossy(text).into_owned();
    let got = match std::panic::catch_unwind(|| StdioTransport::parse_message(text)) {
        Ok(g) => g,
        Err(p) => {
            o.fail("panic", format!("{}: {}", show(), panic_msg(&p)));
            return;
        },
    };
    let v: Value = match serde_json::from_slice(text) {
        Ok(v) => v,
        Err(_) => {
            if let Ok(m) = got {
                o.fail("not-json-accepted", format!("{}: read as {}", show(), kind(&m)));
            }
            return;
        },
    };
    let id_ok = |i: Option<&Value>| i.is_some_and(|i| i.is_string() || i.is_i64());
    let method = v.get("method");
    let id = v.get("id");
    match &got {
        Ok(m) => {
            let w = match encode(m) {
                Ok(w) => w,
                Err(e) => {
                    o.fail("encode", format!("{}: {e}", show()));
                    return;
                },
            };
            let denotes = if method.is_some() {
                if id.is_some() { "request" } else { "notification" }
            } else if v.get("result").is_some() || v.get("error").is_some() {
                "response"
            } else {
                "nothing"
            };
            if kind(m) != denotes {
                o.fail("misread", format!("{} denotes {denotes} but was read as a {}", show(), kind(m)));
                return;
            }
            if denotes != "notification" && (!id_ok(id) || w.get("id") != id) {
                o.fail("id-invented", format!("{} read as {w}", show()));
            }
            if denotes == "response" {
                let ok = ["result", "error"].iter().any(|k| v.get(*k).is_some_and(|x| w.get(*k) == Some(x)) && w.get(if *k == "result" { "error" } else { "result" }).is_none())
                    // (an array in place of an object: serde's positional form)
                    || v.get("error").is_some_and(|e| e.is_array() || w.get("error").is_some_and(|x| same_error(e, x)));
                if !ok {
                    o.fail("payload-invented", format!("{} read as {w}", show()));
                }
                return;
            }
            if w.get("method") != method {
                o.fail("method-invented", format!("{} read as {w}", show()));
                return;
            }
            let name = method.and_then(Value::as_str).unwrap_or("");
            let p = v.get("params");
            if members(name).is_none() {
                o.fail("unknown-method-accepted", format!("{} read as {w}", show()));
                return;
            }
            if params_plausible(name, p) == Some(false) {
                o.fail("wrong-params-accepted", format!("{} read as {w}", show()));
                return;
            }
            if let (Some(Value::Object(p)), Some(ms)) = (p, members(name)) {
                for (k, ..) in ms {
                    if let Some(x) = p.get(*k).filter(|x| !x.is_null()) {
                        let y = w["params"].get(*k).unwrap_or(&Value::Null);
                        if !(same_known(x, y)) {
                            o.fail("params-altered", format!("{} read as {w}", show()));
                        }
                    }
                }
                if let Some(Value::Object(q)) = w.get("params") {
                    for (k, y) in q {
                        if !p.contains_key(k) && !is_default(y) {
                            o.fail("params-invented", format!("{} read as {w}", show()));
                        }
                    }
                }
            }
        },
        Err(_) => {
            // what must be accepted
            let clean = v.as_object().is_some_and(|m| m.get("jsonrpc").and_then(Value::as_str) == Some("2.0"));
            let valid_error = |e: &Value| e["code"].as_i64().is_some_and(|c| i32::try_from(c).is_ok()) && e["message"].is_string();
            let must = clean
                && id_ok(id)
                && method.is_none()
                && match (v.get("result"), v.get("error")) {
                    (Some(_), None) => true,
                    (None, Some(e)) => valid_error(e),
                    _ => false,
                };
            if must {
                o.fail("valid-refused", format!("{}: {:?}", show(), got.err()));
            }
        },
    }
}
fn same_error(e: &Value, x: &Value) -> bool {
    e.get("code") == x.get("code") && e.get("message") == x.get("message") && (e.get("data") == x.get("data") || e["data"].is_null())
}
/// re-encoded `y` says what `x` said (unknown members may be missing from `y`)
fn same_known(x: &Value, y: &Value) -> bool {
    match (x, y) {
        (Value::Object(a), Value::Object(b)) => b.iter().all(|(k, w)| a.get(k).map_or_else(|| is_default(w), |v| same_known(v, w))),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same_known(v, w)),
        // structures may be written positionally
        (Value::Array(_), Value::Object(_)) => true,
        (x, Value::Null) => is_default(x),
        _ => num_eq(x, y) || (x.is_null() && is_default(y)),
    }
}

pub fn c14(ctx: &Ctx) {
    // every combination of envelope members
    let null = Value::Null;
    let opt = |vs: Vec<Value>| -> Vec<Option<Value>> { std::iter::once(None).chain(vs.into_iter().map(Some)).collect() };
    let idv = opt(vec![null.clone(), json!(1), json!(-1), json!("a"), json!(""), json!(1.5), json!(1.0), json!(9223372036854775808u64), json!([]), json!({}), json!(true)]);
    let methods = opt(vec![
        json!("ping"),
        json!("tools/list"),
        json!("tools/call"),
        json!("prompts/get"),
        json!("logging/setLevel"),
        json!("resources/read"),
        json!("notifications/progress"),
        json!("notifications/cancelled"),
        json!("notifications/initialized"),
        json!("notifications/message"),
        json!("roots/list"),
        json!("nope"),
        json!("Ping"),
        json!("tools/list "),
        json!(""),
        json!(5),
        null.clone(),
        json!(["ping"]),
    ]);
    let params = opt(vec![
        null.clone(),
        json!({}),
        json!([]),
        json!("x"),
        json!(1),
        json!(true),
        json!({"name": "n"}),
        json!({"name": 5}),
        json!({"name": "n", "arguments": {"k": 1}}),
        json!({"name": "n", "arguments": "s"}),
        json!({"cursor": "c"}),
        json!({"cursor": 5}),
        json!({"uri": "u", "name": "n"}),
        json!({"uri": ["u"]}),
        json!({"level": "info"}),
        json!({"level": "loud", "message": "m"}),
        json!({"level": "error", "message": "m", "data": null}),
        json!({"requestId": 1.5}),
        json!({"requestId": "r", "reason": 3}),
        json!({"requestId": null}),
        json!({"requestId": 2, "progressToken": "t", "progress": 1}),
        json!({"progressToken": {}, "progress": 1}),
        json!({"progressToken": 1, "progress": "1"}),
        json!(["n"]),
    ]);
    let results = opt(vec![null.clone(), json!({}), json!(1), json!({"error": {"code": 1, "message": "m"}})]);
    let errors = opt(vec![null, json!({"code": -1, "message": "m"}), json!({"code": 1, "message": "m", "data": [1]}), json!({"code": "1", "message": "m"}), json!({"code": 1}), json!({"message": "m"}), json!("e"), json!({"code": 4294967296u64, "message": "m"}), json!({"code": 1.5, "message": "m"}), json!([1, "m", null])]);
    let versions = opt(vec![json!("2.0"), json!("1.0"), json!(2)]);
    let n = (idv.len(), methods.len(), params.len(), results.len(), errors.len(), versions.len());
    let th = ctx.thorough();
    for_all(ctx, "every combination of envelope members", (0..n.0).flat_map(move |i| (0..n.1).map(move |m| (i, m))), |&(i, m)| {
        let mut o = Outcome::default();
        for p in 0..n.2 {
            for r in 0..n.3 {
                for e in 0..n.4 {
                    // without a method, parameters matter little
                    if !th && ((m == 0 && p > 2) || (m > 0 && r + e > 2)) {
                        continue;
                    }
                    for v in 0..n.5 {
                        if !th && v > 1 && r + e > 1 {
                            continue;
                        }
                        let mut obj = Map::new();
                        for (k, x) in [("jsonrpc", &versions[v]), ("id", &idv[i]), ("method", &methods[m]), ("params", &params[p]), ("result", &results[r]), ("error", &errors[e])] {
                            if let Some(x) = x {
                                obj.insert(k.into(), x.clone());
                            }
                        }
                        c14_judge(&mut o, Value::Object(obj).to_string().as_bytes());
                        o.transitions += 1;
                    }
                }
            }
        }
        o.observed = format!("{i} {m}");
        o
    });
    // wrongly typed or missing members, for every method
    let fs = forms();
    let wrong = [json!(null), json!(5), json!(-1.5), json!("s"), json!(true), json!([]), json!(["x"]), json!({}), json!({"k": 1})];
    for_all(ctx, "each member of each method given every wrong type or left out", 0..fs.len(), |&i| {
        let mut o = Outcome::default();
        let f = &fs[i];
        let vals = any_values();
        for p in f.params.iter().flatten() {
            let p = fill(p, "a", &vals[0], &mut 0);
            let id = json!(3);
            let id = if f.notification { None } else { Some(&id) };
            // the opposite envelope: requests without id, notifications with one
            let three = json!(3);
            c14_judge(&mut o, wire(f, if f.notification { Some(&three) } else { None }, Some(&p)).to_string().as_bytes());
            for (k, _, _) in members(f.method).unwrap_or(&[]) {
                let mut q = p.clone();
                q.as_object_mut().unwrap().remove(*k);
                c14_judge(&mut o, wire(f, id, Some(&q)).to_string().as_bytes());
                for w in &wrong {
                    q[*k] = w.clone();
                    c14_judge(&mut o, wire(f, id, Some(&q)).to_string().as_bytes());
                    o.transitions += 1;
                }
            }
        }
        o.observed = f.method.into();
        o
    });
    // byte level faults of valid messages
    let mut texts: Vec<String> = vec![];
    for f in &fs {
        let pick = [0, f.params.len() / 2, f.params.len() - 1];
        for (n, &j) in pick.iter().enumerate() {
            if n > 0 && pick[n - 1] == j {
                continue;
            }
            let p = f.params[j].as_ref().map(|p| fill(p, "é\"", &json!({"a": [1.5, null]}), &mut 0));
            let twelve = json!(12);
            texts.push(wire(f, if f.notification { None } else { Some(&twelve) }, p.as_ref()).to_string());
        }
    }
    texts.push(json!({"jsonrpc": "2.0", "id": "x", "result": {"a": 1}}).to_string());
    texts.push(json!({"jsonrpc": "2.0", "id": 7, "error": {"code": -32600, "message": "m", "data": null}}).to_string());
    let alphabet: &[u8] = b"{}[]\",:0-.eE \\ntfu/\x00\x7f\x80\xc3\xff";
    for_all(ctx, "truncations, deletions, substitutions, insertions and swaps at every byte", texts, |t| {
        let mut o = Outcome::default();
        let b = t.as_bytes();
        for i in 0..=b.len() {
            c14_judge(&mut o, &b[..i]);
            c14_judge(&mut o, &b[i..]);
            for &c in alphabet {
                let mut v = b.to_vec();
                v.insert(i, c);
                c14_judge(&mut o, &v);
            }
            if i < b.len() {
                let mut v = b.to_vec();
                v.remove(i);
                c14_judge(&mut o, &v);
                for &c in alphabet {
                    let mut v = b.to_vec();
                    v[i] = c;
                    c14_judge(&mut o, &v);
                }
                for bit in 0..8 {
                    let mut v = b.to_vec();
                    v[i] ^= 1 << bit;
                    c14_judge(&mut o, &v);
                }
                let mut v = b.to_vec();
                if i + 1 < b.len() {
                    v.swap(i, i + 1);
                    c14_judge(&mut o, &v);
                }
            }
            o.transitions += 2 * alphabet.len() as u64 + 12;
        }
        o.observed = t.clone();
        o
    });
    // every short sequence of tokens
    let tokens = ["{", "}", "[", "]", ":", ",", "\"id\"", "1", "\"method\"", "\"ping\"", "\"params\"", "\"result\"", "\"error\"", "null", "\"jsonrpc\"", "\"2.0\"", " ", "\"a", "\\u0000"];
    for_all(ctx, "token sequences", sequences_upto(tokens.len(), ctx.by(4, 5)), |s| {
        let mut o = Outcome::default();
        let t: String = s.iter().map(|&i| tokens[i]).collect();
        c14_judge(&mut o, t.as_bytes());
        c14_judge(&mut o, format!("{{\"jsonrpc\":\"2.0\",\"id\":1{t}}}").as_bytes());
        o.transitions = 2;
        o
    });
    // depth and size
    for_all(ctx, "nesting and size", 0..60usize, |&k| {
        let mut o = Outcome::default();
        let n = if k < 40 { 100 + k } else { 1 << (k - 40) };
        for (a, b) in [("[", "]"), ("{\"a\":", "}")] {
            let mut t = String::from("{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"tools/call\",\"params\":{\"name\":\"t\",\"arguments\":");
            t.push_str(&a.repeat(n));
            t.push('1');
            t.push_str(&b.repeat(n));
            t.push_str("}}");
            c14_judge(&mut o, t.as_bytes());
            c14_judge(&mut o, a.repeat(n).as_bytes());
        }
        o
    });
}

// ------------------------------------------------------------ C15

/// Child process: `recv` prints what StdioTransport receives on fd 0.
pub fn stdio_child(args: &[String]) -> i32 {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match args.first().map(String::as_str) {
        Some("recv") => {
            let mut lines = String::new();
            rt.block_on(async {
                let mut t = StdioTransport::new();
                for _ in 0..8 {
                    match t.receive().await {
                        Ok(m) => lines.push_str(&format!("M {}\n", encode(&m).unwrap_or(Value::Null))),
                        Err(e) => {
                            let closed = matches!(&e, pmcp::Error::Transport(pmcp::error::TransportError::ConnectionClosed));
                            lines.push_str(if closed { "C\n" } else { "E\n" });
                            lines.push_str(&format!("connected {}\n", t.is_connected()));
                            break;
                        },
                    }
                }
            });
            use std::io::Write;
            let _ = std::io::stdout().write_all(lines.as_bytes());
            let _ = std::io::stdout().flush();
            // the blocking stdin reader may still be parked
            unsafe { libc::_exit(0) }
        },
        Some("send") => {
            let n: usize = args[1].parse().unwrap();
            rt.block_on(async {
                let mut t = StdioTransport::new();
                for k in 0..6 {
                    if t.send(send_sample(n, k)).await.is_err() {
                        return 1;
                    }
                }
                if t.close().await.is_err() || t.is_connected() || t.send(send_sample(n, 0)).await.is_ok() || t.receive().await.is_ok() {
                    return 3;
                }
                0
            })
        },
        _ => 2,
    }
}

fn send_sample(n: usize, k: usize) -> TransportMessage {
    let text = if k % 2 == 0 { "x".repeat(n) } else { "é\n".repeat(n / 2) };
    match k % 3 {
        0 => TransportMessage::Request { id: RequestId::Number(k as i64), request: Request::Client(Box::new(ClientRequest::ReadResource(ReadResourceRequest { uri: text }))) },
        1 => TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: RequestId::String(format!("{k}")), payload: ResponsePayload::Result(json!({"t": text})) }),
        _ => TransportMessage::Notification(Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: text }))),
    }
}

fn self_child(args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("child-stdio").args(args).env_clear();
    c
}

/// deliver `chunks` as separate reads, then end of input; return the child's report
fn deliver(chunks: &[&[u8]]) -> Result<String, String> {
    use std::os::fd::{FromRawFd, OwnedFd};
    let mut fds = [0; 2];
    // SAFETY: plain socketpair; both ends are owned below
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) } != 0 {
        return Err("socketpair".into());
    }
    let (ours, theirs) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
    let child = self_child(&["recv"])
        .stdin(std::process::Stdio::from(theirs))
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    for c in chunks.iter().filter(|c| !c.is_empty()) {
        // (fails when the child has stopped reading: its report tells)
        unsafe { libc::send(fds[0], c.as_ptr().cast(), c.len(), libc::MSG_NOSIGNAL) };
    }
    unsafe { libc::shutdown(fds[0], libc::SHUT_WR) };
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    drop(ours);
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

fn frame(header: &str, body: &[u8]) -> Vec<u8> {
    let mut v = header.replace("@", &body.len().to_string()).into_bytes();
    v.extend_from_slice(body);
    v
}

fn expected_report(msgs: &[Value], end: &str) -> String {
    let mut s: String = msgs.iter().map(|m| format!("M {m}\n")).collect();
    s.push_str(end);
    s
}

pub fn c15(ctx: &Ctx) {
    let bodies: Vec<Value> = vec![json!({"jsonrpc": "2.0", "id": 1, "method": "ping"}), json!({"jsonrpc": "2.0", "id": "é", "result": {"a": 1}})];
    let b: Vec<Vec<u8>> = bodies.iter().map(|v| v.to_string().into_bytes()).collect();
    let std_header = "Content-Length: @\r\n\r\n";
    let stream: Vec<u8> = b.iter().flat_map(|x| frame(std_header, x)).collect();
    let m1 = frame(std_header, &b[0]).len();
    let n = stream.len();
    let fail_key = |o: &mut Outcome, key: &str, what: String, got: &Result<String, String>, want: &str| {
        if got.as_deref() != Ok(want) {
            o.fail(key, format!("{what}: got {got:?}, expected {want:?}"));
        }
    };
    let all = expected_report(&bodies, "C\nconnected false\n");
    // one cut anywhere; two cuts
    let cuts: Vec<(usize, usize)> = (0..=n).map(|i| (i, n)).chain((1..n).flat_map(|i| (i + 1..n).map(move |j| (i, j)))).collect();
    for_all(ctx, "two messages cut at every one and two places", cuts, |&(i, j)| {
        let mut o = Outcome { transitions: 3, ..Default::default() };
        let got = deliver(&[&stream[..i], &stream[i..j], &stream[j..]]);
        fail_key(&mut o, "chunking", format!("{:?} cut at {i} and {j}", String::from_utf8_lossy(&stream)), &got, &all);
        o.observed = format!("{got:?}");
        o
    });
    if ctx.thorough() {
        let cuts: Vec<[usize; 3]> = (1..n).step_by(2).flat_map(|i| (i + 1..n).step_by(2).flat_map(move |j| (j + 1..n).step_by(2).map(move |k| [i, j, k]))).collect();
        for_all(ctx, "two messages cut at three places", cuts, |&[i, j, k]| {
            let mut o = Outcome { transitions: 4, ..Default::default() };
            let got = deliver(&[&stream[..i], &stream[i..j], &stream[j..k], &stream[k..]]);
            fail_key(&mut o, "chunking", format!("cut at {i}, {j} and {k}"), &got, &all);
            o
        });
    }
    for_all(ctx, "two messages in pieces of every size", 1..=n, |&k| {
        let mut o = Outcome { transitions: (n / k) as u64 + 1, ..Default::default() };
        let pieces: Vec<&[u8]> = stream.chunks(k).collect();
        let got = deliver(&pieces);
        fail_key(&mut o, "chunking", format!("pieces of {k} bytes"), &got, &all);
        o
    });
    // truncation at every byte, whole and split once more
    for_all(ctx, "input ending at every byte", (0..=n).flat_map(|i| [(i, i), (i, i / 2), (i, i.saturating_sub(1))]), |&(i, c)| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        let got = deliver(&[&stream[..c], &stream[c..i]]);
        let done = usize::from(i >= m1) + usize::from(i >= n);
        let boundary = i == 0 || i == m1 || i == n;
        let closed = expected_report(&bodies[..done], "C\nconnected false\n");
        if boundary {
            fail_key(&mut o, "end-on-boundary", format!("input ends after {i} bytes"), &got, &closed);
        } else {
            let ok = got.as_ref().is_ok_and(|g| {
                let ms: Vec<&str> = g.lines().filter(|l| l.starts_with("M ")).collect();
                ms.len() == done && (g.contains("\nC\n") || g.contains("\nE\n") || g.starts_with("C\n") || g.starts_with("E\n"))
            });
            if !ok {
                o.fail("truncation", format!("input ends after {i} of {n} bytes (message boundary {m1}): got {got:?}"));
            }
        }
        o.observed = format!("{got:?}");
        o
    });
    // header spellings
    let names = ["Content-Length", "content-length", "CONTENT-LENGTH", "Content-length", "cOnTeNt-LeNgTh"];
    let seps = [": @", ":@", ":  @ ", ":\t@"];
    let others = ["", "Content-Type: application/json\r\n", "X-A: 1\r\nX-B: content-length: 5\r\n"];
    let mut headers = vec![];
    for nm in names {
        for s in seps {
            for o in others {
                for eol in ["\r\n", "\n"] {
                    headers.push(format!("{o}{nm}{s}{eol}{eol}").replace("\r\n", if eol == "\n" { "\n" } else { "\r\n" }));
                    if !o.is_empty() {
                        headers.push(format!("{nm}{s}{eol}{}{eol}", o.replace("\r\n", eol)));
                    }
                }
            }
        }
    }
    for_all(ctx, "header spellings and orders", headers, |h| {
        let mut o = Outcome { transitions: 2, ..Default::default() };
        let s: Vec<u8> = b.iter().flat_map(|x| frame(h, x)).collect();
        let c = s.len() / 3;
        let got = deliver(&[&s[..c], &s[c..]]);
        fail_key(&mut o, "header", format!("header {h:?}"), &got, &all);
        o
    });
    // bad frames: an error or closure, never a message
    let bad: Vec<(&str, Vec<u8>)> = vec![
        ("no header", b"\r\n{}".to_vec()),
        ("no number", frame("Content-Length: \r\n\r\n", &b[0])),
        ("negative", frame("Content-Length: -@\r\n\r\n", &b[0])),
        ("not a number", frame("Content-Length: x@\r\n\r\n", &b[0])),
        ("other header only", frame("Length: @\r\n\r\n", &b[0])),
        ("zero length", frame("Content-Length: 0\r\n\r\n", &b[0])),
        ("too short", frame("Content-Length: 5\r\n\r\n", &b[0])),
        ("too long", frame("Content-Length: 500\r\n\r\n", &b[0])),
        ("not JSON", frame(std_header, b"nope")),
        ("not UTF-8", frame(std_header, b"\"\xff\"")),
        ("header not UTF-8", frame("Content-Length: @\r\n\r\n", &b[0]).into_iter().enumerate().map(|(i, c)| if i == 2 { 0xff } else { c }).collect()),
    ];
    for_all(ctx, "bad frames", bad, |(what, s)| {
        let mut o = Outcome { transitions: 1, ..Default::default() };
        for c in 0..=s.len() {
            let got = deliver(&[&s[..c], &s[c..]]);
            if !got.as_ref().is_ok_and(|g| (g.starts_with("C\n") || g.starts_with("E\n")) && !g.contains("M ")) {
                o.fail("bad-frame", format!("{what}: {got:?}"));
            }
            if !ctx.thorough() && c % 7 != 0 {
                break;
            }
        }
        o
    });
    // large messages: body sizes around the buffers in the way
    let sizes: Vec<usize> = [0usize, 1, 8191 - 60, 8192, 8193, 16384, 65536, 100_000].into_iter().chain(ctx.by(vec![], vec![2_000_000, 2_097_152, 3_000_001])).collect();
    for_all(ctx, "message sizes received", sizes.clone(), |&k| {
        let mut o = Outcome { transitions: 4, ..Default::default() };
        let body = json!({"jsonrpc": "2.0", "id": 1, "method": "resources/read", "params": {"uri": "é".repeat(k)}});
        let bb = body.to_string().into_bytes();
        let s: Vec<u8> = [frame(std_header, &bb), frame(std_header, &b[0])].concat();
        let pieces: Vec<&[u8]> = s.chunks(4096 - 1).collect();
        let got = deliver(&pieces);
        fail_key(&mut o, "large", format!("text of {k} characters"), &got, &expected_report(&[body, bodies[0].clone()], "C\nconnected false\n"));
        o
    });
    // output: exactly one correct frame per message
    for_all(ctx, "frames written", sizes, |&k| {
        let mut o = Outcome { transitions: 6, ..Default::default() };
        let want: Vec<u8> = (0..6)
            .flat_map(|i| {
                let body = StdioTransport::serialize_message(&send_sample(k, i)).unwrap();
                let mut f = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
                f.extend(body);
                f
            })
            .collect();
        match self_child(&["send", &k.to_string()]).stdin(std::process::Stdio::null()).output() {
            Ok(out) => {
                if out.stdout != want {
                    let at = out.stdout.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.stdout.len().min(want.len()));
                    o.fail("written", format!("messages of {k}: {} bytes written, expected {}; first difference at {at}", out.stdout.len(), want.len()));
                }
                if out.status.code() != Some(0) {
                    o.fail("closed", format!("after close: child reported {:?}", out.status.code()));
                }
            },
            Err(e) => o.fail("child", e.to_string()),
        }
        o
    });
}

// ------------------------------------------------------------ C16

#[derive(Clone, Debug, PartialEq)]
struct Ev {
    id: Option<String>,
    event: Option<String>,
    data: String,
    retry: Option<u64>,
}
/// The server-sent-events format (LF and CRLF line ends).
fn reference_sse(text: &str) -> (Vec<Ev>, Option<String>) {
    let mut out = vec![];
    let mut last: Option<String> = None;
    let (mut data, mut event, mut retry): (Option<String>, Option<String>, Option<u64>) = (None, None, None);
    let mut rest = text;
    while let Some(i) = rest.find('\n') {
        let line = &rest[..i];
        let line = line.strip_suffix('\r').unwrap_or(line);
        rest = &rest[i + 1..];
        if line.is_empty() {
            if let Some(d) = data.take() {
                out.push(Ev { id: last.clone().filter(|s| !s.is_empty()), event: event.clone().filter(|s| !s.is_empty()), data: d, retry });
            }
            event = None;
            retry = None;
            continue;
        }
        if line.starts_with(':') {
            continue;
        }
        let (f, v) = match line.split_once(':') {
            Some((f, v)) => (f, v.strip_prefix(' ').unwrap_or(v)),
            None => (line, ""),
        };
        match f {
            "data" => {
                data = Some(match data {
                    None => v.to_string(),
                    Some(d) => format!("{d}\n{v}"),
                })
            },
            "event" => event = Some(v.into()),
            "id" if !v.contains('\0') => last = Some(v.into()),
            "retry" if !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) => retry = v.parse().ok().or(retry),
            _ => {},
        }
    }
    (out, last.filter(|s| !s.is_empty()))
}
fn ev(e: SseEvent) -> Ev {
    Ev { id: e.id.filter(|s| !s.is_empty()), event: e.event.filter(|s| !s.is_empty()), data: e.data, retry: e.retry }
}

fn sse_case(o: &mut Outcome, text: &str, cuts: &[usize]) {
    let mut p = SseParser::new();
    let mut got = vec![];
    let mut at = 0;
    for &c in cuts.iter().chain([&text.len()]) {
        got.extend(p.feed(&text[at..c]));
        at = c;
    }
    let got: Vec<Ev> = got.into_iter().map(ev).collect();
    let (want, last) = reference_sse(text);
    if got != want {
        o.fail(if cuts.is_empty() { "events" } else { "chunked-events" }, format!("{text:?} cut at {cuts:?}: got {got:?}, expected {want:?}"));
    }
    if p.last_event_id().filter(|s| !s.is_empty()).map(String::from) != last {
        o.fail("last-event-id", format!("{text:?}: {:?}, expected {last:?}", p.last_event_id()));
    }
    o.transitions += cuts.len() as u64 + 1;
}

pub fn c16(ctx: &Ctx) {
    let lines = [
        "", "data: a", "data", "data:", "data:  b", "data: é:x", "data: 😀", "id: 1", "id", "id: é", "id: a\0b", "event: m", "event", "retry: 10", "retry: x", "retry: +5", "retry:", ": c", "nope: 1", "data : y", "Data: z", " data: w", "data:\u{feff}q",
    ];
    for eol in ["\n", "\r\n"] {
        for_all(ctx, &format!("line sequences ending {eol:?}"), sequences_upto(lines.len(), ctx.by(5, 6)), |s| {
            let mut o = Outcome::default();
            let mut t: String = s.iter().map(|&i| format!("{}{eol}", lines[i])).collect();
            t.push_str(eol);
            sse_case(&mut o, &t, &[]);
            o
        });
    }
    // mixed line ends, unfinished ends, every chunking
    let small = ["", "data: a", "data:é", "data", "id: 1", "event: é", ": c"];
    for_all(ctx, "line sequences, mixed line ends, one cut anywhere", sequences(small.len() * 2, ctx.by(5, 6)), |s| {
        let mut o = Outcome::default();
        let t: String = s.iter().map(|&i| format!("{}{}", small[i / 2], if i % 2 == 0 { "\n" } else { "\r\n" })).collect();
        for c in 0..=t.len() {
            if t.is_char_boundary(c) {
                sse_case(&mut o, &t, &[c]);
            }
        }
        o.observed = t;
        o
    });
    let streams: Vec<String> = ["\n", "\r\n"]
        .iter()
        .flat_map(|e| {
            [format!("id: 1{e}event: é{e}data: a😀{e}data:{e}{e}: c{e}data: b{e}{e}"), format!("data{e}{e}retry: 5{e}data: é{e}id: 2{e}{e}data: x{e}"), format!("{e}data: {{\"é\":1}}{e}{e}{e}data:y{e}{e}")]
        })
        .collect();
    for_all(ctx, "streams, every two and three cuts, every piece size", streams, |t| {
        let mut o = Outcome::default();
        let b: Vec<usize> = (0..=t.len()).filter(|&i| t.is_char_boundary(i)).collect();
        for x in 0..b.len() {
            for y in x..b.len() {
                sse_case(&mut o, t, &[b[x], b[y]]);
                for z in y..b.len() {
                    sse_case(&mut o, t, &[b[x], b[y], b[z]]);
                }
            }
        }
        for k in 1..b.len() {
            let cuts: Vec<usize> = b.iter().copied().step_by(k).collect();
            sse_case(&mut o, t, &cuts);
        }
        o.observed = t.clone();
        o
    });
    // the binary partitions of a short stream: all 2^(n-1) chunkings
    let short = "id:é\r\ndata:a\n\n";
    let pos: Vec<usize> = (1..short.len()).filter(|&i| short.is_char_boundary(i)).collect();
    for_all(ctx, "all chunkings of a short stream", 0..(1u32 << pos.len()), |&m| {
        let mut o = Outcome::default();
        let cuts: Vec<usize> = pos.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect();
        sse_case(&mut o, short, &cuts);
        o
    });
    // encoding
    let texts = ["", "a", " a", "a\nb", "\n", "a\n", "\na", "\n\n", "é\n😀", ":x", "data: a", "a: b", "\u{0}", "{\"k\":\"v\\n\"}", "  ", "\u{2028}"];
    let ids: Vec<Option<&str>> = vec![None, Some("1"), Some("é:x"), Some(" s"), Some("a b")];
    let evs: Vec<Option<&str>> = vec![None, Some("m"), Some("é: x"), Some(" m")];
    let retries = [None, Some(0), Some(3000), Some(u64::MAX)];
    for_all(ctx, "encode then parse", sequences(texts.len(), 2), |s| {
        let mut o = Outcome::default();
        for id in &ids {
            for e in &evs {
                for r in &retries {
                    let mk = |t: &str| {
                        let mut x = SseEvent::new(t);
                        if let Some(i) = id {
                            x = x.with_id(*i);
                        }
                        if let Some(e) = e {
                            x = x.with_event(*e);
                        }
                        if let Some(r) = r {
                            x = x.with_retry(*r);
                        }
                        x
                    };
                    let es: Vec<SseEvent> = s.iter().map(|&i| mk(texts[i])).collect();
                    let t: String = es.iter().map(ToString::to_string).collect();
                    let mut p = SseParser::new();
                    let got: Vec<Ev> = p.feed(&t).into_iter().map(ev).collect();
                    let want: Vec<Ev> = es.iter().cloned().map(ev).collect();
                    o.transitions += 1;
                    if got != want {
                        o.fail("encoding", format!("{es:?} encoded as {t:?} parsed as {got:?}"));
                    }
                    let mut st = pmcp::shared::sse_parser::SseStream::new();
                    for e in &es {
                        st = st.event(e.clone());
                    }
                    if st.build() != t {
                        o.fail("stream-builder", format!("{es:?}"));
                    }
                    // reset forgets the unfinished event but not the stream
                    let cut = t.len() - 1;
                    let mut p = SseParser::new();
                    p.feed(&t[..cut]);
                    p.reset();
                    let got: Vec<Ev> = p.feed("data: n\n\n").into_iter().map(ev).collect();
                    if got.len() != 1 || got[0].data != "n" || got[0].event.is_some() {
                        o.fail("reset", format!("{t:?} cut at {cut}, reset, then an event: {got:?}"));
                    }
                }
            }
        }
        o.observed = format!("{s:?}");
        o
    });
    // long streams
    for_all(ctx, "many events", [1usize, 50, 1000].into_iter(), |&k| {
        let mut o = Outcome::default();
        let t: String = (0..k).map(|i| SseEvent::new(format!("d{i}\né")).with_id(i.to_string()).to_string()).collect();
        for step in [1usize, 2, 3, 7, 64, 1000] {
            let cuts: Vec<usize> = (0..t.len()).step_by(step).filter(|&i| t.is_char_boundary(i)).collect();
            sse_case(&mut o, &t, &cuts);
        }
        o
    });
}
