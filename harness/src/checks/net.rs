//! C19 the example receivers, run as they are, over the loopback network.
use super::ensure;
use crate::core::*;
use crate::engine::{Ctx, OnPanic, Section};
use crate::model::*;
use open_dis_rust::common::data_types::entity_id::EntityId;
use open_dis_rust::radio_communications::{IntercomControlPdu, IntercomSignalPdu, ReceiverPdu, SignalPdu, TransmitterPdu};
use std::io::{BufRead, BufReader};
use std::net::{SocketAddr, UdpSocket};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;
/// octets the examples receive a datagram into
const BUF: usize = 1024;
const RADIO: [&str; 5] = ["TransmitterPdu", "SignalPdu", "ReceiverPdu", "IntercomSignalPdu", "IntercomControlPdu"];

pub fn c19() -> Vec<Section> {
    vec![
        Section { name: "radio", quick: 1_000, thorough: 200_000, on_panic: V, run: |cx| stubborn(cx, radio), rule: "a fresh radio receiver process per case, fed 150 to 400 datagrams from several sockets (well-formed radio PDUs, other PDUs, hostile mutations, truncations, random octets, empty and oversized datagrams, senders that are gone); its report lines compared with the reference decoder's sequence" },
        Section { name: "echo", quick: 500, thorough: 20_000, on_panic: V, run: |cx| stubborn(cx, echo), rule: "a fresh echo server process per case; every datagram of up to 1024 octets must come back unchanged to its own sender" },
        Section { name: "clients", quick: 4, thorough: 40, on_panic: V, run: |cx| stubborn(cx, clients), rule: "the example senders' datagrams, to the fixed port they use, are well-formed PDUs of the types they name" },
        Section { name: "texts", quick: 1_000, thorough: 20_000, on_panic: V, run: texts, rule: "what the receiver prints of a PDU: each number of an entity identifier is in its text, and no two values of the printed enumerations have the same text" },
    ]
}
fn texts(cx: &mut Ctx) -> Res {
    let mut g = cx.gen();
    let id = <EntityId as Wire>::gen(&mut g);
    let want = [id.simulation_address.site_id, id.simulation_address.application_id, id.entity_id];
    cx.eval(Some(want.iter().fold(1, |a, x| mix(a ^ u64::from(*x)))));
    for (how, text) in [("", lib(|| format!("{id:?}"))), ("#", lib(|| format!("{id:#?}")))] {
        let mut numbers: Vec<u64> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
        for w in want {
            let Some(i) = numbers.iter().position(|n| *n == u64::from(w)) else {
                return Err(format!("EntityId {want:?} prints as {text:?} ({{:{how}?}}), without {w}"));
            };
            numbers.swap_remove(i);
        }
        for (field, w) in ["site_id: ", "application_id: ", "entity_id: "].into_iter().zip(want) {
            let named = text.rfind(field).map(|i| text[i + field.len()..].chars().take_while(char::is_ascii_digit).collect::<String>());
            ensure!(named.as_ref().is_none_or(|n| n.is_empty() || *n == w.to_string()), "EntityId {want:?} prints as {text:?} ({{:{how}?}}), with {field}{named:?}");
        }
    }
    if cx.idx < 4 {
        let name = ["TransmitterTransmitState", "ReceiverReceiverState", "IntercomControlCommand", "IntercomControlTransmitLineState"][cx.idx as usize];
        let e = crate::golden::ENUMS.iter().find(|e| e.name == name).unwrap();
        let mut seen = std::collections::HashMap::new();
        for (of, code) in e.codes {
            let octets = &code.to_be_bytes()[8 - (e.bits / 8) as usize..];
            let (_, text) = lib(|| (e.decode)(&mut &*octets));
            if let Some(o) = seen.insert(text.clone(), of) {
                return Err(format!("{name} {of} and {o} both print as {text:?}"));
            }
        }
    }
    Ok(())
}
/// Datagrams may be lost or overtake each other on a loaded machine: only what happens in each of
/// several runs of the same case counts.
fn stubborn(cx: &mut Ctx, f: fn(&mut Ctx) -> Res) -> Res {
    let rng = cx.rng.clone();
    let mut last = Ok(());
    for _ in 0..3 {
        cx.rng = rng.clone();
        last = f(cx);
        if last.is_ok() {
            return last;
        }
        cx.count("runs repeated", 1);
    }
    last
}
struct Proc {
    child: Child,
    lines: Receiver<String>,
    addr: SocketAddr,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn bin(name: &str) -> std::path::PathBuf {
    let d = std::env::var("DIS_EXAMPLES").expect("DIS_EXAMPLES: the directory of the built examples");
    std::path::Path::new(&d).join(name)
}
fn server(name: &str) -> Result<Proc, String> {
    let mut child = Command::new(bin(name)).arg("127.0.0.1:0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).env("TOKIO_WORKER_THREADS", "2").spawn().expect("spawn an example");
    let out = child.stdout.take().unwrap();
    let (tx, lines) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).split(b'\n') {
            let Ok(l) = l else { break };
            if tx.send(String::from_utf8_lossy(&l).into_owned()).is_err() {
                break;
            }
        }
    });
    let mut p = Proc { child, lines, addr: "127.0.0.1:1".parse().unwrap() };
    let first = p.lines.recv_timeout(Duration::from_secs(40)).map_err(|_| format!("{name} does not start listening"))?;
    p.addr = first.rsplit(' ').next().and_then(|a| a.parse().ok()).ok_or(format!("{name} says {first:?} instead of where it listens"))?;
    Ok(p)
}
/// What the receiver prints for this PDU, but for the sender.
fn report(d: &dyn Dyn, peer: SocketAddr) -> String {
    let a = d.any();
    if let Some(p) = a.downcast_ref::<TransmitterPdu>() {
        format!("Transmitter from {peer}: entity={:?} freq={} state={:?}", p.entity_id, p.frequency, p.transmit_state)
    } else if let Some(p) = a.downcast_ref::<SignalPdu>() {
        format!("Signal from {peer}: entity={:?} samples={} data_length={}", p.entity_id, p.samples, p.data_length)
    } else if let Some(p) = a.downcast_ref::<ReceiverPdu>() {
        format!("Receiver from {peer}: entity={:?} state={:?} power={}", p.entity_id, p.receiver_state, p.received_power)
    } else if let Some(p) = a.downcast_ref::<IntercomSignalPdu>() {
        format!("IntercomSignal from {peer}: intercom={:?} samples={}", p.intercom_reference_id, p.samples)
    } else if let Some(p) = a.downcast_ref::<IntercomControlPdu>() {
        format!("IntercomControl from {peer}: intercom={:?} command={:?} transmit_state={:?}", p.source_intercom_reference_id, p.command, p.transmit_line_state)
    } else {
        unreachable!()
    }
}
fn socket() -> UdpSocket {
    UdpSocket::bind("127.0.0.1:0").expect("a loopback socket")
}
fn datagram(cx: &mut Ctx) -> Vec<u8> {
    let radio = cx.rng.chance(70);
    let kinds = &cx.env.kinds;
    let k: &dyn Kind = if radio {
        let name = *cx.rng.pick(&RADIO);
        &**kinds.iter().find(|k| k.name() == name).unwrap()
    } else {
        cx.kind(cx.rng.clone().next())
    };
    cx.rng.next();
    match cx.rng.below(20) {
        0..=8 => {
            let p = generate(cx, k, true);
            ref_encode(k, &*p)
        }
        9..=12 => foreign(cx, k),
        13..=17 => hostile(cx, k),
        18 => {
            let n = *cx.rng.pick(&[0, 1, 2, 3, 11, 12, 13, 100, 1023, 1024, 1025, 2000]);
            (0..n).map(|_| cx.rng.next() as u8).collect()
        }
        _ => {
            // near the end of the receive buffer
            let name = *cx.rng.pick(&["TransmitterPdu", "SignalPdu", "IntercomSignalPdu", "IntercomControlPdu"]);
            let k = &**kinds.iter().find(|k| k.name() == name).unwrap();
            match Sized_::pick(cx, k, false, true) {
                Some(s) => {
                    let n = s.count_for(BUF - 8 + cx.rng.below(16) as usize);
                    let p = s.make(cx, k, n);
                    ref_encode(k, &*p)
                }
                None => vec![],
            }
        }
    }
}
fn radio(cx: &mut Ctx) -> Res {
    let mut s = server("radio_server")?;
    let socks: Vec<UdpSocket> = (0..3).map(|_| socket()).collect();
    // what these senders send has no report laid down
    let open = socket();
    let open_addr = open.local_addr().unwrap().to_string();
    let end = socket();
    let tk = &**cx.env.kinds.iter().find(|k| k.name() == "TransmitterPdu").unwrap();
    let batches = 10 + cx.rng.below(15);
    for batch in 0..batches {
        let mut want: Vec<(String, Vec<u8>)> = vec![];
        for _ in 0..1 + cx.rng.below(20) {
            let b = datagram(cx);
            if b.len() > 60_000 {
                continue;
            }
            let kind = cx.env.kinds.iter().find(|k| b.len() > 2 && k.ty().1 == b[2] && RADIO.contains(&k.name()));
            let sock = cx.rng.pick(&socks);
            let what_is_due = match kind {
                _ if b.len() > BUF => None,
                None => Some(None),
                Some(k) => match ref_decode(&**k, &b) {
                    Ref::Accept(_, _, _, true) | Ref::Open => None,
                    Ref::Accept(d, ..) => Some(Some(d)),
                    Ref::Reject(_) => Some(None),
                },
            };
            match what_is_due {
                None => {
                    cx.count("datagrams larger than the receive buffer, or with nothing laid down", 1);
                    open.send_to(&b, s.addr).map_err(|e| e.to_string())?;
                }
                Some(None) => {
                    cx.count("datagrams that are not well-formed radio PDUs", 1);
                    if cx.rng.chance(20) {
                        // a sender that is gone
                        socket().send_to(&b, s.addr).map_err(|e| e.to_string())?;
                    } else {
                        sock.send_to(&b, s.addr).map_err(|e| e.to_string())?;
                    }
                }
                Some(Some(d)) => {
                    cx.count("well-formed radio PDUs", 1);
                    cx.count(kind.unwrap().name(), 1);
                    sock.send_to(&b, s.addr).map_err(|e| e.to_string())?;
                    want.push((report(&*d, sock.local_addr().unwrap()), b.clone()));
                }
            }
            cx.eval((!b.is_empty()).then(|| crate::engine::hash(&b)));
        }
        // the end of the batch: a transmitter no one else has
        let mut p = generate(cx, tk, true);
        while ref_encode(tk, &*p).len() > BUF {
            p = generate(cx, tk, true);
        }
        let b = ref_encode(tk, &*p);
        end.send_to(&b, s.addr).map_err(|e| e.to_string())?;
        let last = report(&*p, end.local_addr().unwrap());
        cx.sample(|| format!("{} reports due, then {last}", want.len()));
        let mut got = vec![];
        loop {
            match s.lines.recv_timeout(Duration::from_secs(25)) {
                Ok(l) => {
                    if l.starts_with("Unknown or non-radio PDU") || l.contains(&format!(" from {open_addr}:")) {
                        continue;
                    }
                    if l.contains(&format!(" from {}:", end.local_addr().unwrap())) {
                        ensure!(l == last, "batch {batch}: reported as {l:?} instead of {last:?}");
                        break;
                    }
                    got.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return Err(format!("batch {batch}: no report of the last PDU within 25 s (of {} due before it, {} came)", want.len(), got.len())),
                Err(RecvTimeoutError::Disconnected) => return Err(format!("batch {batch}: the receiver ended: {:?}", s.child.wait())),
            }
        }
        for (i, (w, b)) in want.iter().enumerate() {
            ensure!(got.get(i) == Some(w), "batch {batch}, report {i} of {}: {:?} instead of {w:?}; {}", want.len(), got.get(i), hex(b, 300));
        }
        ensure!(got.len() == want.len(), "batch {batch}: reported without cause: {:?}", &got[want.len()..]);
        cx.count("reports compared", want.len() as u64);
    }
    Ok(())
}
fn echo(cx: &mut Ctx) -> Res {
    let s = server("udp_server")?;
    let socks: Vec<UdpSocket> = (0..3)
        .map(|_| {
            let k = socket();
            k.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
            k
        })
        .collect();
    for _ in 0..20 + cx.rng.below(20) {
        let mut due: Vec<Vec<Vec<u8>>> = vec![vec![]; socks.len()];
        for _ in 0..1 + cx.rng.below(8) {
            let b = datagram(cx);
            if b.len() > BUF {
                if b.len() < 60_000 {
                    cx.count("larger than the receive buffer", 1);
                    socket().send_to(&b, s.addr).map_err(|e| e.to_string())?;
                }
                continue;
            }
            let i = cx.rng.below(socks.len() as u64) as usize;
            socks[i].send_to(&b, s.addr).map_err(|e| e.to_string())?;
            cx.eval((!b.is_empty()).then(|| crate::engine::hash(&b)));
            due[i].push(b);
        }
        let mut buf = vec![0; 65536];
        for (k, due) in socks.iter().zip(due) {
            for b in due {
                let (n, from) = k.recv_from(&mut buf).map_err(|e| format!("a datagram of {} octets does not come back: {e}", b.len()))?;
                ensure!(from == s.addr && buf[..n] == b[..], "a datagram of {} octets comes back as {n}: {} for {}", b.len(), hex(&buf[..n], 60), hex(&b, 60));
                cx.count("datagrams returned", 1);
            }
        }
    }
    Ok(())
}
fn clients(cx: &mut Ctx) -> Res {
    // the clients' port is fixed: one at a time
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let Ok(s) = UdpSocket::bind("127.0.0.1:3000") else {
        cx.count("left out: port 3000 in use", 1);
        return Ok(());
    };
    s.set_read_timeout(Some(Duration::from_secs(25))).unwrap();
    let (prog, kinds): (_, &[&str]) = if cx.idx % 2 == 0 { ("radio_client", &RADIO) } else { ("udp_client", &["AcknowledgePdu"]) };
    let mut child = Command::new(bin(prog)).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn an example");
    let mut f = || -> Res {
        let mut buf = vec![0; 65536];
        for name in kinds {
            let k = &**cx.env.kinds.iter().find(|k| k.name() == *name).unwrap();
            let n = s.recv(&mut buf).map_err(|e| format!("{prog}: no datagram for its {name}: {e}"))?;
            cx.eval(Some(crate::engine::hash(name.as_bytes())));
            ensure!(must_accept(k, &buf[..n]) == Some(true), "{prog} sends for its {name} {}", hex(&buf[..n], 200));
        }
        Ok(())
    };
    let r = f();
    let _ = child.kill();
    let _ = child.wait();
    r
}
