//! Serves compile requests over stdin/stdout, so that one process sees a long
//! history of compilations of the real library.
//!
//! Request:  op (u8), length (u32 LE), payload
//! Response: status (u8), length (u32 LE), payload
//!
//! op 1: payload is a schema; status 0 = code, 1 = parse error, 2 = type error, 3 = panic,
//!       4 = other error
//! op 2: payload is threads (u32), rounds (u32), then schemas, each as length (u32) + bytes;
//!       every thread compiles every schema `rounds` times, each starting at its own offset; the
//!       answer has status 0 and, for every thread, round and schema in this order, the
//!       index (u32) of the schema, its status (u8), and length (u32) + bytes of the result
use std::io::{self, Read, Write};
use std::panic;
use std::sync::{Arc, Barrier, Mutex};

use packetc_lib as pkt;

fn compile(src: &str) -> (u8, String) {
    let result = panic::catch_unwind(|| pkt::compile::<pkt::gen::ts::TypeScript>(src));
    match result {
        Ok(Ok(code)) => (0, code),
        Ok(Err(pkt::Error::Parse(e))) => (1, e),
        Ok(Err(pkt::Error::Check(e))) => (2, e),
        // should there ever be more kinds of errors
        #[allow(unreachable_patterns)]
        Ok(Err(e)) => (4, e.to_string()),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_string());
            (3, msg)
        }
    }
}

fn u32_at(b: &[u8], at: usize) -> usize { u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize }

fn threaded(payload: &[u8]) -> Vec<u8> {
    let (threads, rounds) = (u32_at(payload, 0), u32_at(payload, 4));
    let mut schemas = Vec::new();
    let mut at = 8;
    while at < payload.len() {
        let len = u32_at(payload, at);
        schemas.push(String::from_utf8(payload[at + 4..at + 4 + len].to_vec()).unwrap());
        at += 4 + len;
    }
    let schemas = Arc::new(schemas);
    let barrier = Arc::new(Barrier::new(threads));
    let log = Arc::new(Mutex::new(vec![Vec::new(); threads]));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (schemas, barrier, log) = (schemas.clone(), barrier.clone(), log.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    barrier.wait();
                    let mut mine = Vec::new();
                    for round in 0..rounds {
                        for i in 0..schemas.len() {
                            let k = (i * (1 + round % 3) + t * schemas.len() / threads) % schemas.len();
                            let (status, text) = compile(&schemas[k]);
                            mine.extend_from_slice(&(k as u32).to_le_bytes());
                            mine.push(status);
                            mine.extend_from_slice(&(text.len() as u32).to_le_bytes());
                            mine.extend_from_slice(text.as_bytes());
                        }
                    }
                    log.lock().unwrap()[t] = mine;
                })
                .unwrap()
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    let log = log.lock().unwrap();
    log.concat()
}

fn main() {
    panic::set_hook(Box::new(|_| ()));
    let (stdin, stdout) = (io::stdin(), io::stdout());
    let (mut stdin, mut stdout) = (stdin.lock(), stdout.lock());
    loop {
        let mut head = [0; 5];
        if stdin.read_exact(&mut head).is_err() {
            return;
        }
        let mut payload = vec![0; u32_at(&head, 1)];
        stdin.read_exact(&mut payload).unwrap();
        let (status, out) = match head[0] {
            1 => {
                let (status, text) = compile(std::str::from_utf8(&payload).unwrap());
                (status, text.into_bytes())
            }
            2 => (0, threaded(&payload)),
            op => panic!("unknown op {}", op),
        };
        stdout.write_all(&[status]).unwrap();
        stdout.write_all(&(out.len() as u32).to_le_bytes()).unwrap();
        stdout.write_all(&out).unwrap();
        stdout.flush().unwrap();
    }
}
