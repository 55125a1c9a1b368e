//! P29: the ipfs client, against a scripted node on the loopback interface.
//! What is enumerated is the behaviour of the node and of the network: every cut of a response into
//! chunks, every point where a response breaks off, statuses and bodies of errors, malformed answers.
use crate::engine::*;
use banyan::{query::AllQuery, store::*, *};
use banyan_utils::ipfs::*;
use banyan_utils::tag_index::TagSet;
use banyan_utils::tags::{Key, Sha256Digest, TT as UT};
use futures::StreamExt;
use libipld::Cid;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sha2::Digest;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Step {
    Send(Vec<u8>),
    /// wait a moment, so that the parts before and after arrive separately
    Pause,
    /// wait until the client has got that many messages
    Ack(u64, Arc<(Mutex<u64>, Condvar)>),
    /// neither answer nor close
    Stall(u64),
}
type Script = Vec<Step>;

#[derive(Default)]
struct Node {
    scripts: Mutex<HashMap<String, Script>>,
    blocks: Mutex<HashMap<String, Vec<u8>>>,
    published: Mutex<HashMap<Vec<u8>, Vec<Vec<u8>>>>,
    /// what the node was asked, for the put parameters
    puts: Mutex<HashMap<[u8; 32], Vec<(String, String)>>>,
    requests: AtomicU64,
}
static NODE: OnceLock<Arc<Node>> = OnceLock::new();
static UNIQUE: AtomicU64 = AtomicU64::new(1);
pub fn unique() -> u64 {
    UNIQUE.fetch_add(1, SeqCst)
}

fn node() -> &'static Arc<Node> {
    NODE.get_or_init(|| {
        for p in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
            std::env::remove_var(p);
        }
        let node = Arc::new(Node::default());
        let t0 = Instant::now();
        let v4 = loop {
            match TcpListener::bind("127.0.0.1:5001") {
                Ok(l) => break l,
                Err(e) if t0.elapsed() > Duration::from_secs(120) => {
                    // no verdict without the port
                    eprintln!("port 5001 is taken: {}", e);
                    std::process::exit(4);
                }
                Err(_) => std::thread::sleep(Duration::from_millis(200)),
            }
        };
        for l in std::iter::once(v4).chain(TcpListener::bind("[::1]:5001").ok()) {
            let node = node.clone();
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let node = node.clone();
                    std::thread::Builder::new().stack_size(256 << 10).spawn(move || drop(serve(&node, c))).unwrap();
                }
            });
        }
        node
    })
}

fn unpercent(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(if b[i] == b'+' { b' ' } else { b[i] });
        i += 1;
    }
    o
}

fn status(code: u32) -> &'static str {
    match code {
        200 => "OK",
        404 => "Not Found",
        _ => "Something",
    }
}
fn response(code: u32, body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {} {}\r\nContent-Type: application/octet-stream\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", code, status(code), body.len()).into_bytes();
    v.extend(body);
    v
}
fn chunk_head() -> Vec<u8> {
    b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".to_vec()
}
fn chunk(b: &[u8]) -> Vec<u8> {
    let mut v = format!("{:x}\r\n", b.len()).into_bytes();
    v.extend(b);
    v.extend(b"\r\n");
    v
}
const LAST: &[u8] = b"0\r\n\r\n";

fn sha(b: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(b).into()
}
fn cid_of(codec: u64, code: u64, digest: &[u8]) -> Cid {
    Cid::new_v1(codec, multihash::Multihash::wrap(code, digest).unwrap())
}

fn serve(node: &Node, mut c: TcpStream) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(20)))?;
    node.requests.fetch_add(1, SeqCst);
    let bad = || std::io::Error::new(std::io::ErrorKind::Other, "bad request");
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    let head = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p + 4;
        }
        let n = c.read(&mut tmp)?;
        if n == 0 {
            return Ok(());
        }
        buf.extend(&tmp[..n]);
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let header = |name: &str| {
        text.lines().skip(1).find_map(|l| {
            let (k, v) = l.split_once(':')?;
            k.trim().eq_ignore_ascii_case(name).then(|| v.trim().to_string())
        })
    };
    let target = text.split(' ').nth(1).ok_or_else(bad)?.to_string();
    let (path, query) = target.split_once('?').unwrap_or((&target, ""));
    let args: Vec<(String, Vec<u8>)> = query.split('&').filter_map(|p| p.split_once('=')).map(|(k, v)| (k.to_string(), unpercent(v))).collect();
    let arg = |name: &str| args.iter().find(|x| x.0 == name).map(|x| x.1.clone()).unwrap_or_default();
    let arg_text = |name: &str| String::from_utf8_lossy(&arg(name)).to_string();
    // the body
    let mut body = buf[head..].to_vec();
    if let Some(n) = header("content-length").and_then(|x| x.parse::<usize>().ok()) {
        while body.len() < n {
            let k = c.read(&mut tmp)?;
            if k == 0 {
                return Ok(());
            }
            body.extend(&tmp[..k]);
        }
    } else if header("transfer-encoding").is_some() {
        while !body.ends_with(LAST) {
            let k = c.read(&mut tmp)?;
            if k == 0 {
                return Ok(());
            }
            body.extend(&tmp[..k]);
        }
        let mut flat = vec![];
        let mut p = 0;
        while let Some(e) = body[p..].windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(std::str::from_utf8(&body[p..p + e]).unwrap_or("0"), 16).map_err(|_| bad())?;
            if n == 0 {
                break;
            }
            flat.extend(&body[p + e + 2..p + e + 2 + n]);
            p += e + 4 + n;
        }
        body = flat;
    }
    let (key, default): (String, Vec<u8>) = match path {
        "/api/v0/block/get" => {
            let cid = arg_text("arg");
            let d = match node.blocks.lock().unwrap().get(&cid) {
                Some(b) => response(200, b),
                None => response(500, br#"{"Message":"blockservice: key not found","Code":0,"Type":"error"}"#),
            };
            (format!("get {}", cid), d)
        }
        "/api/v0/block/put" => {
            let ct = header("content-type").unwrap_or_default();
            let boundary = ct.split("boundary=").nth(1).unwrap_or("?").trim_matches('"').to_string();
            let start = body.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(bad)? + 4;
            let end = format!("\r\n--{}", boundary).into_bytes();
            let len = body[start..].windows(end.len()).rposition(|w| w == end).ok_or_else(bad)?;
            let data = body[start..start + len].to_vec();
            let h = sha(&data);
            let codec = match arg_text("format").as_str() {
                "cbor" => 0x71,
                "protobuf" => 0x70,
                _ => 0x55,
            };
            let cid = cid_of(codec, 0x12, &h).to_string();
            node.puts.lock().unwrap().entry(h).or_default().push((arg_text("format"), arg_text("pin")));
            let key = format!("put {}", cid_of(0x71, 0x12, &h));
            if !node.scripts.lock().unwrap().contains_key(&key) {
                node.blocks.lock().unwrap().insert(cid.clone(), data.clone());
            }
            (key, response(200, format!(r#"{{"Key":"{}","Size":{}}}"#, cid, data.len()).as_bytes()))
        }
        "/api/v0/pubsub/sub" => (format!("sub {}", String::from_utf8_lossy(&arg("arg"))), response(500, b"no such subscription")),
        "/api/v0/pubsub/pub" => {
            let all: Vec<Vec<u8>> = args.iter().filter(|x| x.0 == "arg").map(|x| x.1.clone()).collect();
            let key = format!("pub {}", String::from_utf8_lossy(&all.get(0).cloned().unwrap_or_default()));
            if all.len() == 2 {
                node.published.lock().unwrap().entry(all[0].clone()).or_default().push(all[1].clone());
            }
            (key, response(if all.len() == 2 { 200 } else { 400 }, b""))
        }
        _ => ("?".to_string(), response(404, b"404 page not found")),
    };
    let script = node.scripts.lock().unwrap().get(&key).cloned().unwrap_or_else(|| vec![Step::Send(default)]);
    for s in script {
        match s {
            Step::Send(b) => {
                c.write_all(&b)?;
                c.flush()?;
            }
            Step::Pause => std::thread::sleep(Duration::from_millis(3)),
            Step::Stall(ms) => std::thread::sleep(Duration::from_millis(ms)),
            Step::Ack(n, a) => {
                let mut g = a.0.lock().unwrap();
                let t0 = Instant::now();
                while *g < n && t0.elapsed() < Duration::from_secs(10) {
                    g = a.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                }
                if *g < n {
                    // the client did not hand over what it has got: it will see the connection close
                    return Ok(());
                }
            }
        }
    }
    // let the client take everything before the connection goes away
    c.shutdown(std::net::Shutdown::Write)?;
    while let Ok(n) = c.read(&mut tmp) {
        if n == 0 {
            break;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C29 {
    /// put and get of one block of that size, for every codec
    Blocks { len: usize },
    /// blocks that consist of this byte, begin or end with it
    Edge(u8),
    /// the answer to a get, cut into chunks behind these positions
    GetChunks { len: usize, cuts: Vec<usize> },
    /// the answer to a get breaks off after so many bytes
    GetBroken { len: usize, at: usize, chunked: bool },
    GetError { code: u32, body: u8 },
    PutAnswer { kind: u8 },
    /// messages of these kinds, cut behind these positions, with pauses between the parts or not
    Sub { msgs: Vec<u8>, cuts: Vec<usize>, pause: bool },
    /// every byte on its own
    SubBytes { msgs: Vec<u8> },
    /// the node sends a message only once the one before has been handed over
    SubPrompt { n: u64, tail: usize },
    SubBroken { msgs: Vec<u8>, at: usize },
    SubError { code: u32, body: u8 },
    /// a malformed event behind some messages
    SubGarbage { msgs: Vec<u8>, kind: u8 },
    Pub { topic: u8, data: Vec<Vec<u8>> },
    PubError { code: u32 },
    /// a forest on the ipfs store: steps are appends, unpacked appends, pack and forget
    Tree { ops: Vec<u8> },
}

/// for the command line tool: what was published, and a subscription whose messages are cut in several ways
pub fn record(_topic: &str) {
    node();
}
pub fn published(topic: &str) -> Vec<Vec<u8>> {
    node().published.lock().unwrap().get(topic.as_bytes()).cloned().unwrap_or_default()
}
pub fn offer(topic: &str, msgs: &[Vec<u8>], kind: usize) {
    let all: Vec<u8> = msgs.iter().flat_map(|m| event(m)).collect();
    let parts: Vec<Vec<u8>> = match kind {
        0 => msgs.iter().map(|m| event(m)).collect(),
        1 => vec![all],
        _ => all.chunks(50).map(|x| x.to_vec()).collect(),
    };
    let mut s = vec![Step::Send(chunk_head())];
    for p in parts {
        s.push(Step::Send(chunk(&p)));
        s.push(Step::Pause);
    }
    s.push(Step::Send(LAST.to_vec()));
    script(format!("sub {}", topic), s);
}

fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0u64;
    while v.len() < n {
        let mut h = sha2::Sha256::new();
        h.update(seed.to_le_bytes());
        h.update(i.to_le_bytes());
        v.extend(h.finalize());
        i += 1;
    }
    v.truncate(n);
    v
}
fn payload(kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![],
        1 => b"a".to_vec(),
        2 => vec![0xff, 0xfe, 0x3e, 0x3f],
        3 => b"\n{\"data\":1}\n".to_vec(),
        4 => (0..=255).collect(),
        5 => noise(5, 70_000),
        _ => b"bafyreib5kcyyzgr2fwlqcmvmbzxmrlwcfr3v5z3xzvplrk2xcbrh2ntl4m".to_vec(),
    }
}
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(x >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
fn event(data: &[u8]) -> Vec<u8> {
    format!("{{\"from\":\"EiA=\",\"data\":\"{}\",\"seqno\":\"AQ==\",\"topicIDs\":[\"t\"]}}\n", b64(data)).into_bytes()
}

fn errors(kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![],
        1 => br#"{"Message":"merkledag: not found","Code":0,"Type":"error"}"#.to_vec(),
        2 => b"<html>".to_vec(),
        _ => event(b"not a message"),
    }
}

/// Runs the subscription until its end, or until `max` items came.
fn subscribe(topic: &str, max: usize, ack: Option<Arc<(Mutex<u64>, Condvar)>>) -> R<Vec<Result<Vec<u8>, String>>> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    rt.block_on(async {
        let mut s = Box::pin(pubsub_sub(topic).map_err(|e| e.to_string())?);
        let mut out = vec![];
        let r = tokio::time::timeout(Duration::from_secs(30), async {
            while let Some(x) = s.next().await {
                out.push(x.map_err(|e| e.to_string()));
                if let Some(a) = &ack {
                    *a.0.lock().unwrap() += 1;
                    a.1.notify_all();
                }
                if out.len() > max {
                    break;
                }
            }
        })
        .await;
        ck!(r.is_ok(), "the stream neither ended nor failed: {} items so far", out.len());
        Ok(out)
    })
}
fn split(all: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = 0;
    for c in cuts.iter().chain(std::iter::once(&all.len())) {
        if *c > p {
            v.push(all[p..*c].to_vec());
        }
        p = p.max(*c);
    }
    v
}
fn script(key: String, s: Script) {
    node().scripts.lock().unwrap().insert(key, s);
}
fn show(v: &[Result<Vec<u8>, String>]) -> String {
    v.iter().map(|x| match x { Ok(b) => format!("message of {} bytes", b.len()), Err(e) => format!("error {:.60}", e) }).collect::<Vec<_>>().join(", ")
}
/// exactly these messages, in order
fn exact(got: &[Result<Vec<u8>, String>], want: &[Vec<u8>]) -> R<()> {
    ck!(got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.as_ref().ok() == Some(w)), "received [{}], want {} messages of {:?} bytes", show(got), want.len(), want.iter().map(|x| x.len()).collect::<Vec<_>>());
    Ok(())
}
/// these messages in order, and one error behind them
fn then_error(got: &[Result<Vec<u8>, String>], want: &[Vec<u8>]) -> R<()> {
    ck!(got.len() == want.len() + 1 && got.last().unwrap().is_err(), "received [{}], want {} messages, then one error", show(got), want.len());
    exact(&got[..want.len()], want)
}

fn check29(c: &C29) -> R<u64> {
    let nd = node().clone();
    let u = unique();
    let mut n = 1;
    match c {
        C29::Blocks { len } => {
            for codec in [0x71u64, 0x70, 0x55] {
                for pin in [false, true] {
                    let data = noise(*len as u64 * 77 + codec, *len);
                    let cid = block_put(&data, codec, pin).map_err(|e| e.to_string())?;
                    ck!(cid == cid_of(codec, 0x12, &sha(&data)), "put returned {}", cid);
                    let back = block_get(&cid).map_err(|e| e.to_string())?;
                    ck!(&back[..] == &data[..], "get returned {} bytes, want {}", back.len(), data.len());
                    let asked = nd.puts.lock().unwrap().get(&sha(&data)).cloned().unwrap_or_default();
                    let f = match codec { 0x71 => "cbor", 0x70 => "protobuf", _ => "raw" };
                    ck!(asked.contains(&(f.to_string(), pin.to_string())), "the node was asked {:?} for codec {:x}, pin {}", asked, codec, pin);
                    n += 2;
                }
            }
            let mut s = IpfsStore;
            let data = noise(*len as u64 * 77 + 3, *len);
            let l = s.put(data.clone()).map_err(|e| e.to_string())?;
            ck!(l == Sha256Digest::digest(&data), "link {}", l);
            ck!(&s.get(&l).map_err(|e| e.to_string())?[..] == &data[..], "the store returned other data");
            ck!(block_put(&data, 0x72, false).is_err(), "an unknown codec was accepted");
            n += 3;
        }
        C29::Edge(b) => {
            for data in [vec![*b], vec![*b; 3], vec![b'a', *b], vec![*b, b'a'], vec![b'a', *b, b'\n'], vec![*b, *b, b'-', b'-', *b]] {
                let l = IpfsStore.put(data.clone()).map_err(|e| e.to_string())?;
                ck!(l == Sha256Digest::digest(&data), "link {}", l);
                ck!(&IpfsStore.get(&l).map_err(|e| e.to_string())?[..] == &data[..], "the store returned other data than {:?}", data);
                n += 2;
            }
        }
        C29::GetChunks { len, cuts } => {
            let data = noise(u << 20, *len);
            let l = Sha256Digest::digest(&data);
            let mut s = vec![Step::Send(chunk_head())];
            for p in split(&data, cuts) {
                s.push(Step::Send(chunk(&p)));
                s.push(Step::Pause);
            }
            s.push(Step::Send(LAST.to_vec()));
            script(format!("get {}", l), s);
            let got = IpfsStore.get(&l).map_err(|e| e.to_string())?;
            ck!(&got[..] == &data[..], "got {} bytes, want {}", got.len(), data.len());
        }
        C29::GetBroken { len, at, chunked } => {
            let data = noise(u << 20, *len);
            let l = Sha256Digest::digest(&data);
            let all = if *chunked {
                let mut v = chunk_head();
                for p in data.chunks(16) {
                    v.extend(chunk(p));
                }
                v.extend(LAST);
                v
            } else {
                response(200, &data)
            };
            if *at >= all.len() {
                return Ok(0);
            }
            script(format!("get {}", l), vec![Step::Send(all[..*at].to_vec())]);
            match IpfsStore.get(&l) {
                Err(_) => {}
                // the final line of a chunked answer carries no data
                Ok(d) => ck!(*chunked && *at + 2 >= all.len() && &d[..] == &data[..], "{} of {} bytes of the answer gave a block of {} bytes", at, all.len(), d.len()),
            }
        }
        C29::GetError { code, body } => {
            let l = Sha256Digest::digest(&noise(u << 20, 10));
            script(format!("get {}", l), vec![Step::Send(response(*code, &errors(*body)))]);
            let r = IpfsStore.get(&l);
            ck!(r.is_err(), "the answer {} of the node, with {} bytes, was returned as a block", code, r.map(|x| x.len()).unwrap_or(0));
        }
        C29::PutAnswer { kind } => {
            let data = noise(u << 20, 40);
            let h = sha(&data);
            let good = cid_of(0x71, 0x12, &h);
            let json = |c: &str| response(200, format!(r#"{{"Key":"{}","Size":40}}"#, c).as_bytes());
            let ok = response(200, format!(r#"{{"Key":"{}","Size":40}}"#, good).as_bytes());
            let a = match kind {
                0 => response(500, &errors(1)),
                1 => response(500, &errors(2)),
                2 => response(200, &errors(1)),
                3 => response(200, b""),
                4 => json("garbage"),
                5 => json(""),
                // not sha256
                6 => json(&cid_of(0x71, 0xb220, &h).to_string()),
                7 => json(&cid_of(0x71, 0x00, &[1, 2, 3]).to_string()),
                8 => json(&cid_of(0x71, 0x12, &h[..20]).to_string()),
                9 => json(&cid_of(0x55, 0x12, &h).to_string()),
                10 => response(404, b"404 page not found"),
                11 => vec![],
                12 => b"HTTP/1.1 200 OK\r\nContent-Le".to_vec(),
                13 => b"garbage".to_vec(),
                x if (*x as usize) < 20 => ok[..ok.len() - (*x as usize - 13)].to_vec(),
                _ => ok.clone(),
            };
            script(format!("put {}", good), vec![Step::Send(a)]);
            let r = guard(|| Ok(IpfsStore.put(data.clone()).map_err(|e| e.to_string())))?;
            if *kind >= 20 {
                ck!(r == Ok(Sha256Digest::digest(&data)), "put gave {:?}", r);
            } else {
                ck!(r.is_err(), "answer {} was taken for success: {:?}", kind, r);
            }
        }
        C29::Sub { msgs, cuts, pause } => {
            let topic = format!("t{} +&=%\u{e9}", u);
            let want: Vec<Vec<u8>> = msgs.iter().map(|k| payload(*k)).collect();
            let all: Vec<u8> = want.iter().flat_map(|x| event(x)).collect();
            let mut s = vec![Step::Send(chunk_head())];
            for p in split(&all, cuts) {
                s.push(Step::Send(chunk(&p)));
                if *pause {
                    s.push(Step::Pause);
                }
            }
            s.push(Step::Send(LAST.to_vec()));
            script(format!("sub {}", topic), s);
            exact(&subscribe(&topic, want.len(), None)?, &want)?;
        }
        C29::SubBytes { msgs } => {
            let topic = format!("t{}", u);
            let want: Vec<Vec<u8>> = msgs.iter().map(|k| payload(*k)).collect();
            let mut s = vec![Step::Send(chunk_head())];
            for b in want.iter().flat_map(|x| event(x)) {
                s.push(Step::Send(chunk(&[b])));
            }
            s.push(Step::Send(LAST.to_vec()));
            script(format!("sub {}", topic), s);
            exact(&subscribe(&topic, want.len(), None)?, &want)?;
        }
        C29::SubPrompt { n: k, tail } => {
            let topic = format!("t{}", u);
            let want: Vec<Vec<u8>> = (0..*k).map(|i| format!("{}", i).into_bytes()).collect();
            let ack = Arc::new((Mutex::new(0), Condvar::new()));
            let mut s = vec![Step::Send(chunk_head())];
            // each part ends `tail` bytes inside of the next message
            let mut pend: Vec<u8> = vec![];
            for (i, w) in want.iter().enumerate() {
                let e = event(w);
                let mut part = e[pend.len()..].to_vec();
                pend = want.get(i + 1).map(|x| event(x)[..*tail].to_vec()).unwrap_or_default();
                part.extend(&pend);
                s.push(Step::Send(chunk(&part)));
                s.push(Step::Ack(i as u64 + 1, ack.clone()));
            }
            s.push(Step::Send(LAST.to_vec()));
            script(format!("sub {}", topic), s);
            exact(&subscribe(&topic, want.len(), Some(ack))?, &want)?;
        }
        C29::SubBroken { msgs, at } => {
            let topic = format!("t{}", u);
            let want: Vec<Vec<u8>> = msgs.iter().map(|k| payload(*k)).collect();
            let evs: Vec<Vec<u8>> = want.iter().map(|x| event(x)).collect();
            let all: Vec<u8> = evs.concat();
            if *at > all.len() {
                return Ok(0);
            }
            let mut complete = 0;
            let mut end = 0;
            for e in &evs {
                end += e.len();
                if end <= *at {
                    complete += 1;
                }
            }
            let mut s = vec![Step::Send(chunk_head())];
            s.push(Step::Send(chunk(&all[..*at])));
            if *at == 0 {
                s.pop();
            }
            script(format!("sub {}", topic), s);
            let got = subscribe(&topic, want.len() + 1, None)?;
            // a message of which just the line end is missing may count as complete
            let last = evs.get(complete).map_or(false, |e| evs[..complete].concat().len() + e.len() - 1 == *at);
            if then_error(&got, &want[..complete]).is_err() && last {
                then_error(&got, &want[..complete + 1])?;
            } else {
                then_error(&got, &want[..complete])?;
            }
        }
        C29::SubError { code, body } => {
            let topic = format!("t{}", u);
            script(format!("sub {}", topic), vec![Step::Send(response(*code, &errors(*body)))]);
            then_error(&subscribe(&topic, 3, None)?, &[])?;
        }
        C29::SubGarbage { msgs, kind } => {
            let topic = format!("t{}", u);
            let want: Vec<Vec<u8>> = msgs.iter().map(|k| payload(*k)).collect();
            let bad: Vec<u8> = match kind {
                0 => b"garbage\n".to_vec(),
                1 => b"{}\n".to_vec(),
                2 => b"{\"from\":\"x\",\"data\":\"*\",\"seqno\":\"x\",\"topicIDs\":[]}\n".to_vec(),
                3 => b"{\"from\":\"x\",\"data\":[1],\"seqno\":\"x\",\"topicIDs\":[]}\n".to_vec(),
                4 => b"{\"from\":\"x\",\"data\":\"YQ==\",\"seqno\":\"x\",\"topicIDs\":[]}}\n".to_vec(),
                5 => b"\xff\xff\n".to_vec(),
                6 => b"{\"data\":\"YQ==\"}\n".to_vec(),
                // incomplete, and the response ends
                _ => b"{\"from\":\"x\",\"da".to_vec(),
            };
            let mut s = vec![Step::Send(chunk_head())];
            for e in want.iter().map(|x| event(x)).chain(std::iter::once(bad)) {
                s.push(Step::Send(chunk(&e)));
                s.push(Step::Pause);
            }
            s.push(Step::Send(LAST.to_vec()));
            script(format!("sub {}", topic), s);
            then_error(&subscribe(&topic, want.len() + 1, None)?, &want)?;
        }
        C29::Pub { topic, data } => {
            let topic = format!("{}{}", ["t", "a b", "a&b=c", "%41", "a+b", "\u{e9}/?#", "a%"][*topic as usize], u);
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
            for d in data {
                rt.block_on(pubsub_pub(&topic, d)).map_err(|e| e.to_string())?;
                n += 1;
            }
            let got = nd.published.lock().unwrap().get(topic.as_bytes()).cloned().unwrap_or_default();
            ck!(&got == data, "published {:?}, the node got {:?}", data, got);
        }
        C29::PubError { code } => {
            let topic = format!("t{}", u);
            let a = if *code == 0 { vec![] } else { response(*code, &errors(1)) };
            script(format!("pub {}", topic), vec![Step::Send(a)]);
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
            ck!(rt.block_on(pubsub_pub(&topic, b"x")).is_err(), "the node answered {}, but publishing counts as done", code);
        }
        C29::Tree { ops } => n = tree(ops, u)?,
    }
    Ok(n)
}

type Fo = Forest<UT, IpfsStore>;
fn tree(ops: &[u8], u: u64) -> R<u64> {
    let cfg = Config { max_leaf_count: 3, max_key_branches: 2, max_summary_branches: 2, ..Config::debug() };
    let es = |e: anyhow::Error| format!("{:#}", e);
    let mem = MemStore::new(usize::MAX, Sha256Digest::digest);
    let fa: Fo = Forest::new(IpfsStore, BranchCache::new(1 << 20));
    let mut ta = Transaction::new(fa.clone(), IpfsStore);
    let fb: Forest<UT, MemStore<Sha256Digest>> = Forest::new(mem.clone(), BranchCache::new(1 << 20));
    let mut tb = Transaction::new(fb.clone(), mem.clone());
    let mut a: StreamBuilder<UT, String> = StreamBuilder::new(cfg.clone(), Secrets::default());
    let mut b: StreamBuilder<UT, String> = StreamBuilder::new(cfg.clone(), Secrets::default());
    let mut next = 0u64;
    let mut count = 0;
    let mut items = |n: u64| -> Vec<(Key, String)> {
        (0..n)
            .map(|_| {
                next += 1;
                (Key::single(next, next, TagSet::single("a".into())), format!("{} {}", u, next))
            })
            .collect()
    };
    for op in ops {
        let v = items(if *op < 2 { [4, 9][*op as usize] } else { 2 });
        match op {
            0 | 1 => {
                ta.extend(&mut a, v.clone()).map_err(es)?;
                tb.extend(&mut b, v).map_err(es)?;
            }
            2 => {
                ta.extend_unpacked(&mut a, v.clone()).map_err(es)?;
                tb.extend_unpacked(&mut b, v).map_err(es)?;
            }
            3 => {
                ta.pack(&mut a).map_err(es)?;
                tb.pack(&mut b).map_err(es)?;
            }
            _ => {
                let q = banyan::query::OffsetRangeQuery::from(a.count() / 2..);
                ta.retain(&mut a, &q).map_err(es)?;
                tb.retain(&mut b, &q).map_err(es)?;
                if a.link().is_none() {
                    return Ok(count);
                }
            }
        }
        ck!(a.link() == b.link(), "root {:?}, want {:?}", a.link(), b.link());
        count += 1;
    }
    let Some(root) = a.link() else { return Ok(count) };
    let want = fb.collect::<String>(&b.snapshot()).map_err(es)?;
    let cold = || -> Fo { Forest::new(IpfsStore, BranchCache::new(0)) };
    let t = cold().load_tree::<String>(Secrets::default(), root).map_err(es)?;
    ck!(cold().collect::<String>(&t).map_err(es)? == want, "content differs");
    // every block in turn is not there, or can not be had at the moment
    let mut links: BTreeMap<String, (i64, u64)> = BTreeMap::new();
    let mut off = 0;
    for i in fb.iter_index(&b.snapshot(), AllQuery) {
        let i = i.map_err(es)?;
        if let Some(l) = i.link() {
            links.insert(l.to_string(), (i.level() as i64, off));
        }
        if i.level() == 0 || i.link().is_none() {
            off += i.count();
        }
    }
    for l in links.keys() {
        for (i, answer) in [response(500, &errors(1)), response(404, b"404 page not found"), vec![], response(200, b"")].into_iter().enumerate() {
            script(format!("get {}", l), vec![Step::Send(answer)]);
            let f = cold();
            match f.load_tree::<String>(Secrets::default(), root) {
                Err(_) => ck!(*l == root.to_string(), "the root could not be loaded, though another block is missing"),
                Ok(t) => {
                    ck!(*l != root.to_string(), "a missing root was loaded");
                    let got: Vec<_> = f.iter_filtered(&t, AllQuery).take(want.len() + 1).collect();
                    let bad = got.iter().filter(|x| x.is_err()).count();
                    ck!(bad == 1 && got.last().unwrap().is_err(), "block {} missing (answer {}): {} items, {} errors", l, i, got.len(), bad);
                    let present: Vec<(u64, (Key, String))> = want.iter().enumerate().filter_map(|(i, x)| Some((i as u64, x.clone()?))).collect();
                    for (g, w) in got.iter().zip(&present) {
                        if let Ok((o, k, v)) = g {
                            ck!(*o == w.0 && *k == w.1 .0 && *v == w.1 .1, "wrong entry {}", o);
                        }
                    }
                    ck!(f.collect::<String>(&t).is_err(), "collect hides the missing block");
                }
            }
            count += 1;
        }
        node().scripts.lock().unwrap().remove(&format!("get {}", l));
    }
    ck!(cold().collect::<String>(&t).map_err(es)? == want, "content differs after the faults");
    Ok(count)
}

pub fn replay29(v: &Value) -> R<()> {
    let c: C29 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check29(&c).map(|_| ())
}

pub fn explore29(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    let quick = ctx.quick();
    for len in [0, 1, 2, 3, 63, 64, 65, 1000, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 5_000_000] {
        v.push(C29::Blocks { len });
    }
    for len in 4..ctx.pick(40, 300) {
        v.push(C29::Blocks { len });
    }
    v.extend((0..=255).map(C29::Edge));
    for len in [0usize, 1, 7, 24] {
        for i in 0..=len {
            for j in i..=len {
                v.push(C29::GetChunks { len, cuts: vec![i, j] });
            }
        }
    }
    for len in [0usize, 5, 40] {
        for chunked in [false, true] {
            for at in 0..300 {
                v.push(C29::GetBroken { len, at, chunked });
            }
        }
    }
    for code in [400, 401, 403, 404, 405, 500, 502, 503] {
        for body in 0..4 {
            v.push(C29::GetError { code, body });
            v.push(C29::SubError { code, body });
        }
        v.push(C29::PubError { code });
    }
    v.push(C29::PubError { code: 0 });
    for kind in 0..24 {
        v.push(C29::PutAnswer { kind });
    }
    // subscriptions: all sequences of message kinds, all places for one and two cuts
    let kinds = ctx.pick(5u8, 7);
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    for len in 1..=ctx.pick(2, 3) {
        let mut s: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..len {
            s = s.into_iter().flat_map(|x| (0..kinds).map(move |k| { let mut x = x.clone(); x.push(k); x })).collect();
        }
        seqs.extend(s);
    }
    for s in &seqs {
        let all: usize = s.iter().map(|k| event(&payload(*k)).len()).sum();
        let ends: Vec<usize> = s.iter().scan(0, |p, k| { *p += event(&payload(*k)).len(); Some(*p) }).collect();
        // one message each, as the node usually does it; all in one
        v.push(C29::Sub { msgs: s.clone(), cuts: ends.clone(), pause: true });
        v.push(C29::Sub { msgs: s.clone(), cuts: vec![], pause: false });
        // around all boundaries
        for e in &ends {
            for d in [-2i64, -1, 1, 2] {
                v.push(C29::Sub { msgs: s.clone(), cuts: vec![((*e as i64 + d) as usize).min(all)], pause: true });
            }
        }
        if all < 2000 {
            v.push(C29::SubBytes { msgs: s.clone() });
        }
        for kind in 0..8 {
            if s.len() < 2 {
                v.push(C29::SubGarbage { msgs: s.clone(), kind });
            }
        }
    }
    for s in [vec![1u8], vec![1, 0], vec![1, 2, 1]] {
        let all: usize = s.iter().map(|k| event(&payload(*k)).len()).sum();
        for i in 0..=all {
            v.push(C29::Sub { msgs: s.clone(), cuts: vec![i], pause: true });
            v.push(C29::SubBroken { msgs: s.clone(), at: i });
            let step = if quick { 11 } else { 1 };
            for j in (i + 1..=all).step_by(step) {
                v.push(C29::Sub { msgs: s.clone(), cuts: vec![i, j], pause: j % 2 == 0 });
            }
        }
    }
    for n in 1..6 {
        for tail in [0, 1, 5, 30] {
            v.push(C29::SubPrompt { n, tail });
        }
    }
    // publishing: all single bytes, all pairs of bytes of interest, long data
    let odd: Vec<u8> = if quick { b"\0\n %&+=/?#a\x7f\x80\xff".to_vec() } else { (0..=255).collect() };
    for topic in 0..7 {
        v.push(C29::Pub { topic, data: vec![vec![], b"x".to_vec(), noise(3, 700)] });
    }
    for i in (0..=255u8).step_by(16) {
        v.push(C29::Pub { topic: 0, data: (i..=i + 15).map(|b| vec![b]).collect() });
    }
    for a in &odd {
        v.push(C29::Pub { topic: 0, data: odd.iter().map(|b| vec![*a, *b]).collect() });
    }
    let mut hist: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..ctx.pick(3, 4) {
        hist = hist.into_iter().flat_map(|h| (0..5).map(move |o| { let mut h = h.clone(); h.push(o); h })).collect();
        v.extend(hist.iter().map(|h| C29::Tree { ops: h.clone() }));
    }
    // the expensive ones first
    v.reverse();
    let r = ctx.par(&v, check29);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("requests answered by the scripted node", node().requests.load(SeqCst));
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.note("a scripted ipfs node on the loopback interface: block sizes around all powers and buffer sizes; every way to cut a response in up to three chunks, every point where it breaks off, 8 error statuses with 4 kinds of bodies, 20 malformed answers to a put; subscriptions with all sequences of message kinds and all one and two cuts, each byte alone, malformed events, delivery before the next message is sent; publishing of every byte and pairs of bytes; all histories of a forest on the ipfs store up to depth 3 (4) with each block failing in 4 ways".to_string());
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": v.len(),
      "rule": "a case is (request, behaviour of the node); cases are distinct by construction; all exercise at least one request"}),
    )
}
