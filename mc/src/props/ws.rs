//! C32 WebSocket transports: the real client and server transports against a
//! raw peer that speaks the framing itself, over the loopback interface.
use super::util::*;
use crate::ctx::Ctx;
use crate::explore::*;
use base64::Engine;
use pmcp::server::transport::websocket::{WebSocketServerConfig, WebSocketServerTransport};
use pmcp::shared::{StdioTransport, Transport, TransportMessage, WebSocketConfig, WebSocketTransport};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::timeout;

const PATIENCE: Duration = Duration::from_secs(15);
const MAX_MESSAGE: usize = 2000;

// ---------------------------------------------------------------- raw peer

#[derive(Clone, Debug, PartialEq, Eq)]
enum Seen {
    Text(String),
    Pong(Vec<u8>),
    Ping,
    Close,
    End,
}

struct Raw {
    c: TcpStream,
    buf: Vec<u8>,
    masked: bool,
}

fn frame(fin: bool, opcode: u8, payload: &[u8], masked: bool) -> Vec<u8> {
    let mut f = vec![if fin { 0x80 } else { 0 } | opcode];
    let m = if masked { 0x80 } else { 0 };
    match payload.len() {
        n if n < 126 => f.push(m | n as u8),
        n if n < 65536 => {
            f.push(m | 126);
            f.extend_from_slice(&(n as u16).to_be_bytes());
        },
        n => {
            f.push(m | 127);
            f.extend_from_slice(&(n as u64).to_be_bytes());
        },
    }
    if masked {
        let key = [0x12, 0xa7, 0x00, 0xff];
        f.extend_from_slice(&key);
        f.extend(payload.iter().enumerate().map(|(i, b)| b ^ key[i % 4]));
    } else {
        f.extend_from_slice(payload);
    }
    f
}

impl Raw {
    async fn head(c: &mut TcpStream) -> std::io::Result<String> {
        let mut buf = vec![];
        while !buf.ends_with(b"\r\n\r\n") {
            buf.push(c.read_u8().await?);
        }
        Ok(String::from_utf8_lossy(&buf).into_owned())
    }
    /// open a connection to a server
    async fn open(addr: SocketAddr) -> std::io::Result<Raw> {
        let mut c = TcpStream::connect(addr).await?;
        let _ = c.set_nodelay(true);
        let key = base64::engine::general_purpose::STANDARD.encode([7u8; 16]);
        c.write_all(format!("GET / HTTP/1.1\r\nHost: {addr}\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: {key}\r\n\r\n").as_bytes()).await?;
        let h = Self::head(&mut c).await?;
        if !h.starts_with("HTTP/1.1 101") {
            return Err(std::io::Error::other(h));
        }
        Ok(Raw { c, buf: vec![], masked: true })
    }
    /// accept a connection from a client
    async fn accept(mut c: TcpStream) -> std::io::Result<Raw> {
        let _ = c.set_nodelay(true);
        let h = Self::head(&mut c).await?;
        let key = h.lines().find_map(|l| l.split_once(": ").filter(|(k, _)| k.eq_ignore_ascii_case("sec-websocket-key")).map(|(_, v)| v.trim().to_string())).unwrap_or_default();
        let accept = tokio_tungstenite::tungstenite::handshake::derive_accept_key(key.as_bytes());
        c.write_all(format!("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {accept}\r\n\r\n").as_bytes()).await?;
        Ok(Raw { c, buf: vec![], masked: false })
    }
    async fn write(&mut self, bytes: &[u8]) {
        let _ = self.c.write_all(bytes).await;
    }
    fn f(&self, fin: bool, opcode: u8, payload: &[u8]) -> Vec<u8> {
        frame(fin, opcode, payload, self.masked)
    }
    /// the next frame (an answer to a close is not sent)
    async fn next(&mut self) -> Option<Seen> {
        timeout(PATIENCE, self.frame()).await.ok()
    }
    async fn frame(&mut self) -> Seen {
        loop {
            if let Some((used, s)) = self.parse() {
                self.buf.drain(..used);
                return s;
            }
            let mut tmp = [0u8; 4096];
            match self.c.read(&mut tmp).await {
                Ok(0) | Err(_) => return Seen::End,
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
            }
        }
    }
    fn parse(&self) -> Option<(usize, Seen)> {
        let b = &self.buf;
        let op = b.first()? & 0xf;
        let m = b.get(1)? & 0x80 != 0;
        let (len, mut at) = match b[1] & 0x7f {
            126 => (u16::from_be_bytes(b.get(2..4)?.try_into().ok()?) as usize, 4),
            127 => (u64::from_be_bytes(b.get(2..10)?.try_into().ok()?) as usize, 10),
            n => (n as usize, 2),
        };
        let key: Vec<u8> = if m { b.get(at..at + 4)?.to_vec() } else { vec![0; 4] };
        at += if m { 4 } else { 0 };
        let p: Vec<u8> = b.get(at..at + len)?.iter().enumerate().map(|(i, x)| x ^ key[i % 4]).collect();
        let s = match op {
            1 if b[0] & 0x80 != 0 => Seen::Text(String::from_utf8_lossy(&p).into_owned()),
            8 => Seen::Close,
            9 => Seen::Ping,
            10 => Seen::Pong(p),
            _ => Seen::Text(format!("frame {op}: {p:?}")),
        };
        Some((at + len, s))
    }
}

// ---------------------------------------------------------------- the steps

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Step {
    /// a request, notification, response, larger request from the peer
    Text(usize),
    NotJson,
    NotAMessage,
    EmptyText,
    Ping,
    Pong,
    Binary,
    /// a message in two frames with a ping in between
    Fragments,
    /// two messages, cut in the middle of the second one's frame
    TwoInPieces,
    /// the transport sends a request, notification, response
    Send(usize),
}
const STEPS: [Step; 15] = [
    Step::Text(0),
    Step::Text(1),
    Step::Text(2),
    Step::Text(3),
    Step::NotJson,
    Step::NotAMessage,
    Step::EmptyText,
    Step::Ping,
    Step::Pong,
    Step::Binary,
    Step::Fragments,
    Step::TwoInPieces,
    Step::Send(0),
    Step::Send(1),
    Step::Send(2),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Finish {
    PeerCloses,
    PeerDrops,
    LocalCloses,
    /// a frame that breaks the protocol
    BadFrame,
    BadUtf8,
    TooLong,
    /// another connection takes over (server)
    Replaced,
}

fn wire_message(kind: usize, n: usize) -> Value {
    match kind {
        0 => json!({"jsonrpc": "2.0", "id": n, "method": "tools/call", "params": {"name": format!("é{n}\u{1F600}"), "arguments": {"n": n}}}),
        1 => json!({"jsonrpc": "2.0", "method": "notifications/progress", "params": {"progressToken": format!("t{n}"), "progress": 1.5}}),
        2 => json!({"jsonrpc": "2.0", "id": format!("s{n}"), "result": {"n": n}}),
        _ => json!({"jsonrpc": "2.0", "id": n, "method": "tools/call", "params": {"name": "x".repeat(1500), "arguments": {"n": n}}}),
    }
}
fn message(v: &Value) -> TransportMessage {
    StdioTransport::parse_message(v.to_string().as_bytes()).expect("a message")
}
fn value(m: &TransportMessage) -> Value {
    StdioTransport::serialize_message(m).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

/// take what the transport should hand over
async fn take(o: &mut Outcome, t: &mut impl Transport, want: &mut Vec<Value>, what: &str) {
    for (i, w) in want.drain(..).enumerate() {
        match timeout(PATIENCE, t.receive()).await {
            Err(_) => o.fail("message-lost", format!("{what}: message {i} ({w}) was not handed over")),
            Ok(Err(e)) => o.fail("message-lost", format!("{what}: message {i} ({w}): receive failed: {e}")),
            Ok(Ok(m)) => {
                expect_eq(o, "message", format!("{what}: message {i}"), value(&m), w);
            },
        }
        if !o.fails.is_empty() {
            return;
        }
    }
}
/// take what the peer should see; pongs and pings are noted
async fn see(o: &mut Outcome, p: &mut Raw, want: &mut Vec<Value>, pongs: &mut Vec<Vec<u8>>, what: &str) {
    for w in want.drain(..) {
        loop {
            match p.next().await {
                Some(Seen::Pong(d)) => pongs.push(d),
                Some(Seen::Ping) => {},
                Some(Seen::Text(t)) => {
                    expect_eq(o, "sent", what, serde_json::from_str::<Value>(&t).unwrap_or(Value::String(t)), w.clone());
                    break;
                },
                other => {
                    o.fail("send-lost", format!("{what}: the peer saw {other:?} instead of {w}"));
                    return;
                },
            }
        }
        if !o.fails.is_empty() {
            return;
        }
    }
}

/// Play steps on an open connection; `eager`: everything is taken at once.
/// Leaves what was not yet taken in the two lists.
#[allow(clippy::too_many_arguments)]
async fn play(o: &mut Outcome, t: &mut impl Transport, p: &mut Raw, plan: &[Step], eager: bool, base: usize, to_local: &mut Vec<Value>, to_peer: &mut Vec<Value>, what: &str) {
    let mut pongs = vec![];
    for (k, s) in plan.iter().enumerate() {
        let n = base + k;
        let what = format!("{what} step {k} {s:?}");
        match *s {
            Step::Text(kind) => {
                let m = wire_message(kind, n);
                let b = p.f(true, 1, m.to_string().as_bytes());
                p.write(&b).await;
                to_local.push(m);
            },
            Step::NotJson => {
                let b = p.f(true, 1, b"{\"jsonrpc\":\"2.0\",\"id\":1,");
                p.write(&b).await;
            },
            Step::NotAMessage => {
                let b = p.f(true, 1, b"[{\"x\":1}]");
                p.write(&b).await;
            },
            Step::EmptyText => {
                let b = p.f(true, 1, b"");
                p.write(&b).await;
            },
            Step::Ping => {
                let d = format!("ping{n}").into_bytes();
                let b = p.f(true, 9, &d);
                p.write(&b).await;
                while eager && !pongs.contains(&d) {
                    match p.next().await {
                        Some(Seen::Pong(x)) => pongs.push(x),
                        Some(Seen::Ping) => {},
                        other => {
                            o.fail("no-pong", format!("{what}: the peer saw {other:?}"));
                            return;
                        },
                    }
                }
            },
            Step::Pong => {
                let b = p.f(true, 10, b"x");
                p.write(&b).await;
            },
            Step::Binary => {
                let b = p.f(true, 2, wire_message(0, 999).to_string().as_bytes());
                p.write(&b).await;
            },
            Step::Fragments => {
                let m = wire_message(0, n);
                let text = m.to_string();
                let cut = text.find('é').unwrap() + 1; // inside a character
                let mut b = p.f(false, 1, &text.as_bytes()[..cut]);
                b.extend(p.f(true, 9, b"between"));
                b.extend(p.f(true, 0, &text.as_bytes()[cut..]));
                p.write(&b).await;
                to_local.push(m);
            },
            Step::TwoInPieces => {
                let (a, c) = (wire_message(2, n), wire_message(3, n));
                let mut b = p.f(true, 1, a.to_string().as_bytes());
                let cut = b.len() + 1;
                b.extend(p.f(true, 1, c.to_string().as_bytes()));
                p.write(&b[..cut]).await;
                tokio::task::yield_now().await;
                p.write(&b[cut..]).await;
                to_local.push(a);
                to_local.push(c);
            },
            Step::Send(kind) => {
                let m = wire_message(kind, n);
                match timeout(PATIENCE, t.send(message(&m))).await {
                    Ok(Ok(())) => to_peer.push(m),
                    other => o.fail("send-failed", format!("{what}: {other:?}")),
                }
            },
        }
        if eager {
            take(o, t, to_local, &what).await;
            see(o, p, to_peer, &mut pongs, &what).await;
        }
        if !t.is_connected() {
            o.fail("not-connected", format!("{what}: is_connected is false"));
        }
        if !o.fails.is_empty() {
            return;
        }
    }
}

/// the peer reads to the end; the texts it saw and whether there was a close
async fn read_out(o: &mut Outcome, p: &mut Raw, answer_close: bool, what: &str) -> (Vec<Value>, bool) {
    let (mut texts, mut closed) = (vec![], false);
    loop {
        match p.next().await {
            Some(Seen::Text(t)) => texts.push(serde_json::from_str(&t).unwrap_or(Value::String(t))),
            Some(Seen::Pong(_) | Seen::Ping) => {},
            Some(Seen::Close) => {
                closed = true;
                if answer_close {
                    let b = p.f(true, 8, &1000u16.to_be_bytes());
                    p.write(&b).await;
                }
            },
            Some(Seen::End) => return (texts, closed),
            None => {
                o.fail("left-open", format!("{what}: the peer's connection never ended (texts {texts:?}, close seen: {closed})"));
                return (texts, closed);
            },
        }
    }
}

/// the connection is over for the transport: it says so and stays that way
async fn over(o: &mut Outcome, t: &mut impl Transport, what: &str) {
    match timeout(PATIENCE, t.receive()).await {
        Ok(Err(_)) => {},
        Ok(Ok(m)) => o.fail("extra-message", format!("{what}: one more message: {}", value(&m))),
        Err(_) => o.fail("closure-unnoticed", format!("{what}: receive waits for ever")),
    }
    let start = std::time::Instant::now();
    while t.is_connected() {
        if start.elapsed() > PATIENCE {
            o.fail("still-connected", format!("{what}: is_connected stays true"));
            return;
        }
        tokio::time::sleep(Duration::from_micros(200)).await;
    }
    match timeout(PATIENCE, t.send(message(&wire_message(0, 777)))).await {
        Ok(Err(_)) => {},
        other => o.fail("send-after-closure", format!("{what}: send returned {other:?}")),
    }
}

/// End a connection in the given way and judge everything still in flight.
async fn finish(o: &mut Outcome, t: &mut impl Transport, p: &mut Raw, how: Finish, to_local: &mut Vec<Value>, to_peer: &mut Vec<Value>, what: &str) {
    let what = format!("{what} then {how:?}");
    match how {
        Finish::LocalCloses => {
            // what was sent before closing arrives before the close
            match timeout(PATIENCE, t.close()).await {
                Ok(Ok(())) => {},
                other => o.fail("close", format!("{what}: {other:?}")),
            }
            if t.is_connected() {
                o.fail("still-connected", format!("{what}: is_connected after close"));
            }
            let (texts, closed) = read_out(o, p, true, &what).await;
            expect_eq(o, "sent", format!("{what}: seen by the peer"), texts, std::mem::take(to_peer));
            if !closed {
                o.fail("close-not-announced", format!("{what}: the peer saw no close frame"));
            }
            // messages not taken before closing may be dropped, but nothing else comes
            let mut rest = to_local.drain(..);
            loop {
                match timeout(PATIENCE, t.receive()).await {
                    Ok(Err(_)) => break,
                    Ok(Ok(m)) if rest.next().as_ref() == Some(&value(&m)) => {},
                    other => {
                        o.fail("receive-after-close", format!("{what}: {:?}", other.map(|r| r.map(|m| value(&m)))));
                        break;
                    },
                }
            }
            over(o, t, &what).await;
        },
        Finish::Replaced => unreachable!(),
        _ => {
            let b = match how {
                Finish::PeerCloses => p.f(true, 8, &1001u16.to_be_bytes()),
                Finish::BadFrame => p.f(true, 3, b"reserved"),
                Finish::BadUtf8 => p.f(true, 1, b"\"\xff\""),
                Finish::TooLong => {
                    let mut m = wire_message(0, 5);
                    m["params"]["name"] = json!("y".repeat(MAX_MESSAGE));
                    p.f(true, 1, m.to_string().as_bytes())
                },
                _ => vec![],
            };
            p.write(&b).await;
            if how == Finish::PeerDrops {
                let _ = p.c.shutdown().await;
            }
            // everything sent before the end is still handed over
            take(o, t, to_local, &what).await;
            if o.fails.is_empty() {
                over(o, t, &what).await;
            }
            if how == Finish::PeerCloses {
                let (texts, closed) = read_out(o, p, false, &what).await;
                if !to_peer.starts_with(&texts) {
                    o.fail("sent", format!("{what}: the peer saw {texts:?}, sent were {to_peer:?}"));
                }
                if !closed {
                    o.fail("close-not-answered", format!("{what}: the peer saw no close frame"));
                }
            } else {
                let (texts, _) = read_out(o, p, false, &what).await;
                if !to_peer.starts_with(&texts) {
                    o.fail("sent", format!("{what}: the peer saw {texts:?}, sent were {to_peer:?}"));
                }
            }
            to_peer.clear();
        },
    }
}

// ---------------------------------------------------------------- the cases

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}
fn block<R>(f: impl std::future::Future<Output = R>) -> R {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let rt = r.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
        rt.block_on(f)
    })
}

/// A loopback address no other case is using.
fn fresh_addr() -> SocketAddr {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id() as usize;
    SocketAddr::from(([127, 1 + (pid % 250) as u8, (n / 200 % 250) as u8, 1 + (n % 200) as u8], 21_000 + (pid / 250 % 8000) as u16))
}

async fn bound(max: Option<usize>, unmasked: bool) -> Result<(WebSocketServerTransport, SocketAddr), String> {
    let mut last = String::new();
    for _ in 0..20 {
        let addr = fresh_addr();
        let mut t = WebSocketServerTransport::new(WebSocketServerConfig { bind_addr: addr, max_frame_size: Some(1 << 20), max_message_size: max, accept_unmasked_frames: unmasked });
        match t.bind().await {
            Ok(()) => return Ok((t, addr)),
            Err(e) => last = e.to_string(),
        }
    }
    Err(last)
}

async fn join(t: &mut WebSocketServerTransport, addr: SocketAddr) -> Result<Raw, String> {
    let (a, p) = tokio::join!(timeout(PATIENCE, t.accept()), timeout(PATIENCE, Raw::open(addr)));
    match (a, p) {
        (Ok(Ok(())), Ok(Ok(p))) => Ok(p),
        (a, p) => Err(format!("accept {a:?}, peer {:?}", p.map(|r| r.map(|_| ())))),
    }
}

/// is the environment (not the code) to blame?
fn steady(f: impl Fn() -> Outcome) -> Outcome {
    let mut o = f();
    for _ in 0..3 {
        if !o.fails.iter().any(|(_, d)| d.contains("os error")) {
            break;
        }
        o = f();
    }
    o
}

fn server_case(plan: &[Step], eager: bool, how: Finish) -> Outcome {
    let mut o = Outcome { transitions: plan.len() as u64 + 2, ..Default::default() };
    let what = format!("server, steps {plan:?}, taken {}", if eager { "at once" } else { "at the end" });
    block(async {
        let (mut t, addr) = match bound(Some(MAX_MESSAGE), false).await {
            Ok(x) => x,
            Err(e) => return o.fail("bind", e),
        };
        if t.is_connected() {
            o.fail("not-yet-connected", format!("{what}: connected before any connection"));
        }
        if !matches!(timeout(PATIENCE, t.receive()).await, Ok(Err(_))) || t.send(message(&wire_message(0, 1))).await.is_ok() {
            o.fail("not-yet-connected", format!("{what}: send or receive before any connection"));
        }
        let mut p = match join(&mut t, addr).await {
            Ok(p) => p,
            Err(e) => return o.fail("accept", format!("{what}: {e}")),
        };
        let (mut to_local, mut to_peer) = (vec![], vec![]);
        play(&mut o, &mut t, &mut p, plan, eager, 0, &mut to_local, &mut to_peer, &what).await;
        if !o.fails.is_empty() {
            return;
        }
        if how == Finish::Replaced {
            take(&mut o, &mut t, &mut to_local, &what).await;
            let mut q = match join(&mut t, addr).await {
                Ok(p) => p,
                Err(e) => return o.fail("accept", format!("{what}: second connection: {e}")),
            };
            let w2 = format!("{what}, second connection");
            // the first connection is given up after everything sent on it
            let late = wire_message(0, 55);
            let b = p.f(true, 1, late.to_string().as_bytes());
            p.write(&b).await;
            let (texts, closed) = read_out(&mut o, &mut p, true, &w2).await;
            expect_eq(&mut o, "sent", format!("{w2}: seen by the first peer"), texts, std::mem::take(&mut to_peer));
            if !closed {
                o.fail("close-not-announced", format!("{w2}: the first peer saw no close frame"));
            }
            play(&mut o, &mut t, &mut q, &[Step::Text(0), Step::Send(0), Step::Text(2)], eager, 100, &mut to_local, &mut to_peer, &w2).await;
            if o.fails.is_empty() {
                finish(&mut o, &mut t, &mut q, Finish::LocalCloses, &mut to_local, &mut to_peer, &w2).await;
            }
            return;
        }
        finish(&mut o, &mut t, &mut p, how, &mut to_local, &mut to_peer, &what).await;
        if !o.fails.is_empty() {
            return;
        }
        // the transport takes another connection
        let what = format!("{what}, {how:?}, then another connection");
        match join(&mut t, addr).await {
            Err(e) => o.fail("accept", format!("{what}: {e}")),
            Ok(mut p) => {
                play(&mut o, &mut t, &mut p, &[Step::Send(2), Step::Text(0)], true, 200, &mut to_local, &mut to_peer, &what).await;
                if o.fails.is_empty() {
                    finish(&mut o, &mut t, &mut p, Finish::PeerCloses, &mut to_local, &mut to_peer, &what).await;
                }
            },
        }
    });
    o.observed = what;
    o
}

fn client_config(addr: SocketAddr, ping: bool) -> WebSocketConfig {
    WebSocketConfig {
        url: format!("ws://{addr}/").parse().unwrap(),
        auto_reconnect: false,
        reconnect_delay: Duration::from_millis(1),
        max_reconnect_delay: Duration::from_millis(2),
        max_reconnect_attempts: Some(1),
        ping_interval: ping.then(|| Duration::from_secs(3600)),
        request_timeout: Duration::from_secs(30),
    }
}

async fn meet(t: &WebSocketTransport, l: &TcpListener) -> Result<Raw, String> {
    let server = async {
        let (c, _) = l.accept().await?;
        Raw::accept(c).await
    };
    let (a, p) = tokio::join!(timeout(PATIENCE, t.connect()), timeout(PATIENCE, server));
    match (a, p) {
        (Ok(Ok(())), Ok(Ok(p))) => Ok(p),
        (a, p) => Err(format!("connect {a:?}, peer {:?}", p.map(|r| r.map(|_| ())))),
    }
}

fn client_case(plan: &[Step], eager: bool, ping: bool, how: Finish) -> Outcome {
    let mut o = Outcome { transitions: plan.len() as u64 + 2, ..Default::default() };
    let what = format!("client, pings {ping}, steps {plan:?}, taken {}", if eager { "at once" } else { "at the end" });
    block(async {
        let l = match TcpListener::bind("127.0.0.1:0").await {
            Ok(l) => l,
            Err(e) => return o.fail("bind", e.to_string()),
        };
        let mut t = WebSocketTransport::new(client_config(l.local_addr().unwrap(), ping));
        if t.is_connected() || t.send(message(&wire_message(0, 1))).await.is_ok() {
            o.fail("not-yet-connected", format!("{what}: connected or sent before connecting"));
        }
        let mut p = match meet(&t, &l).await {
            Ok(p) => p,
            Err(e) => return o.fail("connect", format!("{what}: {e}")),
        };
        let (mut to_local, mut to_peer) = (vec![], vec![]);
        play(&mut o, &mut t, &mut p, plan, eager, 0, &mut to_local, &mut to_peer, &what).await;
        if o.fails.is_empty() && how == Finish::Replaced {
            // connected again while the first connection is open: the first is given up
            take(&mut o, &mut t, &mut to_local, &what).await;
            let mut q = match meet(&t, &l).await {
                Ok(p) => p,
                Err(e) => return o.fail("connect", format!("{what}: second connection: {e}")),
            };
            let w2 = format!("{what}, second connection");
            let (texts, closed) = read_out(&mut o, &mut p, true, &w2).await;
            expect_eq(&mut o, "sent", format!("{w2}: seen by the first peer"), texts, std::mem::take(&mut to_peer));
            if !closed {
                o.fail("close-not-announced", format!("{w2}: the first peer saw no close frame"));
            }
            drop(p);
            // the end of the first connection is noticed, and is not the end of the second
            for _ in 0..20 {
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
            play(&mut o, &mut t, &mut q, &[Step::Text(0), Step::Send(0), Step::Text(2)], eager, 100, &mut to_local, &mut to_peer, &w2).await;
            if o.fails.is_empty() {
                finish(&mut o, &mut t, &mut q, Finish::LocalCloses, &mut to_local, &mut to_peer, &w2).await;
            }
            return;
        }
        if o.fails.is_empty() {
            finish(&mut o, &mut t, &mut p, how, &mut to_local, &mut to_peer, &what).await;
        }
        if !o.fails.is_empty() {
            return;
        }
        let what = format!("{what}, {how:?}, then connected again");
        match meet(&t, &l).await {
            Err(e) => o.fail("connect", format!("{what}: {e}")),
            Ok(mut p) => {
                play(&mut o, &mut t, &mut p, &[Step::Send(0), Step::Text(2)], true, 200, &mut to_local, &mut to_peer, &what).await;
                if o.fails.is_empty() {
                    finish(&mut o, &mut t, &mut p, Finish::LocalCloses, &mut to_local, &mut to_peer, &what).await;
                }
            },
        }
    });
    o.observed = what;
    o
}

/// The SDK's client and server transports on one connection.
fn both_case(plan: &[usize], eager: bool, client_closes: bool) -> Outcome {
    let mut o = Outcome { transitions: plan.len() as u64 + 2, ..Default::default() };
    let what = format!("client and server, sends {plan:?}, taken {}, {} closes", if eager { "at once" } else { "at the end" }, if client_closes { "client" } else { "server" });
    block(async {
        let (mut s, addr) = match bound(None, false).await {
            Ok(x) => x,
            Err(e) => return o.fail("bind", e),
        };
        let mut c = WebSocketTransport::new(client_config(addr, true));
        let (a, b) = tokio::join!(timeout(PATIENCE, s.accept()), timeout(PATIENCE, c.connect()));
        if !matches!((&a, &b), (Ok(Ok(())), Ok(Ok(())))) {
            return o.fail("connect", format!("{what}: accept {a:?}, connect {b:?}"));
        }
        let (mut to_s, mut to_c) = (vec![], vec![]);
        for (n, k) in plan.iter().enumerate() {
            let m = wire_message(k % 4, n);
            let r = if k / 4 == 0 {
                to_s.push(m.clone());
                timeout(PATIENCE, c.send(message(&m))).await
            } else {
                to_c.push(m.clone());
                timeout(PATIENCE, s.send(message(&m))).await
            };
            if !matches!(r, Ok(Ok(()))) {
                o.fail("send-failed", format!("{what}: {r:?}"));
            }
            if eager {
                take(&mut o, &mut s, &mut to_s, &what).await;
                take(&mut o, &mut c, &mut to_c, &what).await;
            }
            if !o.fails.is_empty() {
                return;
            }
        }
        // what the closing side has sent still arrives
        if client_closes {
            take(&mut o, &mut c, &mut to_c, &what).await;
            let _ = c.close().await;
            take(&mut o, &mut s, &mut to_s, &what).await;
        } else {
            take(&mut o, &mut s, &mut to_s, &what).await;
            let _ = s.close().await;
            take(&mut o, &mut c, &mut to_c, &what).await;
        }
        if o.fails.is_empty() {
            over(&mut o, &mut s, &what).await;
            over(&mut o, &mut c, &what).await;
        }
    });
    o.observed = what;
    o
}

/// `fails` attempts meet a peer that hangs up; at most `max` attempts.
fn retry_case(max: u32, fails: u32) -> Outcome {
    let mut o = Outcome { transitions: fails.min(max) as u64 + 1, ..Default::default() };
    let what = format!("at most {max} attempts, the first {fails} fail");
    block(async {
        let l = match TcpListener::bind("127.0.0.1:0").await {
            Ok(l) => l,
            Err(e) => return o.fail("bind", e.to_string()),
        };
        let mut config = client_config(l.local_addr().unwrap(), false);
        config.max_reconnect_attempts = Some(max);
        let mut t = WebSocketTransport::new(config);
        let tried = std::sync::Arc::new(AtomicUsize::new(0));
        let tried2 = tried.clone();
        let server = tokio::spawn(async move {
            let mut open = vec![];
            loop {
                let Ok((c, _)) = l.accept().await else { continue };
                if tried2.fetch_add(1, Ordering::SeqCst) as u32 >= fails {
                    open.push(Raw::accept(c).await);
                }
            }
        });
        match timeout(PATIENCE, t.connect()).await {
            Err(_) => o.fail("retry", format!("{what}: connect never ends")),
            Ok(r) => {
                if r.is_ok() != (fails < max) {
                    o.fail("retry", format!("{what}: {r:?}"));
                }
                expect_eq(&mut o, "attempts", &what, tried.load(Ordering::SeqCst) as u32, max.min(fails + 1));
                expect_eq(&mut o, "retry-state", format!("{what}: connected"), t.is_connected(), fails < max);
                if !o.fails.is_empty() {
                    server.abort();
                    return;
                }
                if r.is_ok() {
                    let _ = t.close().await;
                }
            },
        }
        server.abort();
    });
    o.observed = what;
    o
}

/// Sizes around the configured limits, and unmasked frames.
fn limit_case(max_message: Option<usize>, max_frame: Option<usize>, size: usize, parts: usize, masked: bool, allow_unmasked: bool) -> Outcome {
    let mut o = Outcome { transitions: 2, ..Default::default() };
    let what = format!("limits: message {max_message:?}, frame {max_frame:?}, unmasked allowed {allow_unmasked}: {size} bytes in {parts} frames, masked {masked}");
    block(async {
        let mut t;
        let mut tries = 0;
        let addr = loop {
            let addr = fresh_addr();
            t = WebSocketServerTransport::new(WebSocketServerConfig { bind_addr: addr, max_frame_size: max_frame, max_message_size: max_message, accept_unmasked_frames: allow_unmasked });
            match t.bind().await {
                Ok(()) => break addr,
                Err(e) if tries > 20 => return o.fail("bind", e.to_string()),
                Err(_) => tries += 1,
            }
        };
        let mut p = match join(&mut t, addr).await {
            Ok(p) => p,
            Err(e) => return o.fail("accept", format!("{what}: {e}")),
        };
        p.masked = masked;
        let mut m = json!({"jsonrpc": "2.0", "id": 1, "result": {"text": ""}});
        let short = m.to_string().len();
        m["result"]["text"] = json!("z".repeat(size - short));
        let text = m.to_string().into_bytes();
        let each = text.len().div_ceil(parts);
        let chunks: Vec<&[u8]> = text.chunks(each).collect();
        let mut b = vec![];
        for (i, c) in chunks.iter().enumerate() {
            b.extend(p.f(i + 1 == chunks.len(), if i == 0 { 1 } else { 0 }, c));
        }
        p.write(&b).await;
        let fits = max_message.is_none_or(|x| size <= x) && max_frame.is_none_or(|x| each <= x) && (masked || allow_unmasked);
        if fits {
            take(&mut o, &mut t, &mut vec![m], &what).await;
        } else {
            over(&mut o, &mut t, &what).await;
        }
    });
    o.observed = what;
    o
}

pub fn c32(ctx: &Ctx) {
    const ENDS: [Finish; 7] = [Finish::PeerCloses, Finish::PeerDrops, Finish::LocalCloses, Finish::BadFrame, Finish::BadUtf8, Finish::TooLong, Finish::Replaced];
    let len = ctx.by(2, 3);
    let plans = || sequences_upto(STEPS.len(), len).map(|s| s.iter().map(|&i| STEPS[i]).collect::<Vec<_>>());
    // every plan followed by one more message each way, all of it taken at the end
    let probed = || plans().map(|mut p| {
        p.extend([Step::Text(0), Step::Send(0)]);
        p
    });
    let both_sides: Vec<_> = probed().flat_map(|p| [true, false].map(|server| (p.clone(), server))).collect();
    for_all(ctx, &format!("peer frames and sends, up to {len}, and one more message each way"), both_sides, |(p, server)| {
        steady(|| if *server { server_case(p, false, Finish::PeerCloses) } else { client_case(p, false, false, Finish::PeerCloses) })
    });
    let server: Vec<_> = plans().flat_map(|p| ENDS.iter().flat_map(move |&e| [true, false].map(|eager| (p.clone(), eager, e))).collect::<Vec<_>>()).collect();
    for_all(ctx, &format!("server transport: peer frames and sends, up to {len}"), server, |(p, eager, e)| steady(|| server_case(p, *eager, *e)));
    let client: Vec<_> = plans()
        .flat_map(|p| ENDS[..5].iter().chain(&ENDS[6..]).flat_map(move |&e| [(true, true), (false, false), (true, false), (false, true)].map(|(eager, ping)| (p.clone(), eager, ping, e))).collect::<Vec<_>>())
        .filter(|(p, eager, ping, _)| p.len() < 2 || eager != ping)
        .collect();
    for_all(ctx, &format!("client transport: peer frames and sends, up to {len}"), client, |(p, eager, ping, e)| steady(|| client_case(p, *eager, *ping, *e)));
    let both: Vec<_> = sequences_upto(8, ctx.by(3, 4)).flat_map(|s| [(true, true), (true, false), (false, true), (false, false)].map(|(eager, c)| (s.clone(), eager, c))).collect();
    for_all(ctx, "client and server transports together", both, |(s, eager, c)| steady(|| both_case(s, *eager, *c)));
    // many messages in each direction before anything is taken
    let many = SIZES.iter().filter(|n| **n > 3).flat_map(|&n| (0..4usize).map(move |k| (n, k)));
    for_all(ctx, "many messages in flight", many, |&(n, mix)| {
        let plan: Vec<usize> = (0..n).map(|i| match mix { 0 => i % 4, 1 => 4 + i % 4, 2 => i % 8, _ => 7 - i % 8 }).collect();
        let mut o = steady(|| both_case(&plan, false, mix % 2 == 0));
        o.observed = format!("{n} {mix}");
        o
    });
    let retries: Vec<_> = (1..=4u32).flat_map(|m| (0..=4u32).map(move |f| (m, f))).collect();
    for_all(ctx, "connection attempts", retries, |&(m, f)| steady(|| retry_case(m, f)));
    let mut limits = vec![];
    for max_message in [None, Some(300), Some(301)] {
        for max_frame in [None, Some(150), Some(300)] {
            for size in [149, 150, 151, 298, 299, 300, 301, 302, 602] {
                for parts in [1, 2, 3] {
                    for (masked, allow) in [(true, false), (true, true), (false, false), (false, true)] {
                        limits.push((max_message, max_frame, size, parts, masked, allow));
                    }
                }
            }
        }
    }
    for_all(ctx, "configured limits", limits, |&(a, b, c, d, e, f)| steady(|| limit_case(a, b, c, d, e, f)));
}
