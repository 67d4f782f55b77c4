//! Concurrent event queue histories: exactly once, real-time FIFO, filter, payload integrity.
use enumflags2::BitFlags;
use event_queue::*;
use grafbase_telemetry::graphql::GraphqlResponseStatus;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use vcommon::{Case, Check, Rng, Viol, ensure, viol};

#[derive(Clone, Debug)]
struct Push {
    id: u64,
    kind: u8,
    start: u64,
    end: u64,
}
#[derive(Clone, Debug)]
struct Pop {
    id: Option<u64>,
    start: u64,
    end: u64,
}

const KINDS: [EventFilterType; 4] =
    [EventFilterType::Operation, EventFilterType::SubgraphRequest, EventFilterType::HttpRequest, EventFilterType::Extension];

fn status(id: u64) -> GraphqlResponseStatus {
    match id % 4 {
        0 => GraphqlResponseStatus::Success,
        1 => GraphqlResponseStatus::FieldError { count: id, data_is_null: id % 3 == 0 },
        2 => GraphqlResponseStatus::RequestError { count: id },
        _ => GraphqlResponseStatus::RefusedRequest,
    }
}
fn optype(id: u64) -> OperationType {
    [OperationType::Query, OperationType::Mutation, OperationType::Subscription][(id % 3) as usize]
}
fn method(id: u64) -> http::Method {
    [http::Method::GET, http::Method::POST, http::Method::PUT][(id % 3) as usize].clone()
}
fn code(id: u64) -> http::StatusCode {
    http::StatusCode::from_u16(200 + (id % 300) as u16).unwrap()
}

fn push(q: &EventQueue, kind: u8, id: u64, calls: &Cell<u64>) {
    match kind {
        0 => {
            let doc: Arc<str> = format!("doc {id}").into();
            let name = format!("op{id}");
            let mut b = if id % 2 == 0 { ExecutedOperation::builder(optype(id)) } else { ExecutedOperation::builder_with_default() };
            b.operation_type(optype(id));
            if id % 5 != 0 {
                b.name(&name);
            }
            if id % 4 == 1 {
                b.status(status(id + 1)).has_deprecated_fields(id % 7 != 0).operation_type(optype(id + 1));
                b.operation_type(optype(id));
            }
            b.document(&doc).status(status(id)).has_deprecated_fields(id % 7 == 0);
            if id % 3 == 0 {
                b.complexity(id * 3);
            }
            b.cached_plan(id % 2 == 1);
            let p = b.track_prepare();
            std::hint::black_box(p);
            q.push_operation(b);
        }
        1 => {
            let (name, url) = (format!("sub{id}"), format!("http://s/{id}"));
            let mut b = ExecutedSubgraphRequest::builder(&name, method(id), &url);
            for i in 0..id % 4 {
                b.push_execution(match (id + i) % 4 {
                    0 => RequestExecution::InternalServerError,
                    1 => RequestExecution::RequestError,
                    2 => RequestExecution::RateLimited,
                    _ => {
                        let mut r = SubgraphResponse::builder();
                        r.status(code(id));
                        let mut h = http::HeaderMap::new();
                        h.insert("x-id", id.into());
                        r.headers(h);
                        r.track_connection();
                        r.track_response();
                        RequestExecution::Response(r.build())
                    }
                });
            }
            b.cache_status([CacheStatus::Hit, CacheStatus::PartialHit, CacheStatus::Miss][(id % 3) as usize]);
            // The status, like the others, can be set again: after a retry. The last one counts.
            for earlier in 0..id % 3 {
                b.graphql_response_status(status(id + 1 + earlier));
            }
            b.graphql_response_status(status(id));
            q.push_subgraph_request(b);
        }
        2 => {
            let url = format!("http://h/{id}");
            q.push_http_request(ExecutedHttpRequest::builder(&url).method(method(id)).response_status(code(id)));
        }
        _ => {
            let r: Result<(), ()> = q.push_extension_event(|| {
                calls.set(calls.get() + 1);
                Ok(ExtensionEvent { extension_name: format!("ext{id}"), event_name: "e".into(), data: id.to_be_bytes().to_vec() })
            });
            assert!(r.is_ok());
        }
    }
}

/// The id carried by an event whose every field must be the one pushed.
fn identify(e: &Event) -> Result<u64, Viol> {
    let num = |s: &str, p: &str| s.strip_prefix(p).and_then(|s| s.parse::<u64>().ok());
    let fail = || viol("payload", format!("event does not carry what was pushed: {e:?}"));
    match e {
        Event::Operation(o) => {
            let Some(id) = num(&o.document, "doc ") else { return fail() };
            let ok = o.name == (id % 5 != 0).then(|| format!("op{id}"))
                && o.operation_type == optype(id)
                && o.cached_plan == (id % 2 == 1)
                && o.complexity == (id % 3 == 0).then_some(id * 3)
                && o.has_deprecated_fields == (id % 7 == 0)
                && format!("{:?}", o.status) == format!("{:?}", status(id))
                && o.duration >= o.prepare_duration;
            if ok { Ok(id) } else { fail() }
        }
        Event::Subgraph(s) => {
            let Some(id) = num(&s.subgraph_name, "sub") else { return fail() };
            let mut ok = s.url == format!("http://s/{id}")
                && s.method == method(id)
                && s.executions.len() as u64 == id % 4
                && s.has_errors == (id % 4 != 0)
                && matches!((s.cache_status, id % 3), (CacheStatus::Hit, 0) | (CacheStatus::PartialHit, 1) | (CacheStatus::Miss, 2));
            for (i, x) in s.executions.iter().enumerate() {
                ok &= match ((id + i as u64) % 4, x) {
                    (0, RequestExecution::InternalServerError) | (1, RequestExecution::RequestError) | (2, RequestExecution::RateLimited) => true,
                    (3, RequestExecution::Response(r)) => {
                        r.status == code(id) && r.headers["x-id"] == id.to_string() && r.response_time >= r.connection_time
                    }
                    _ => false,
                };
            }
            if ok { Ok(id) } else { fail() }
        }
        Event::Http(h) => {
            let Some(id) = num(&h.url, "http://h/") else { return fail() };
            if h.method == method(id) && h.response_status == code(id) { Ok(id) } else { fail() }
        }
        Event::Extension(x) => {
            let Some(id) = num(&x.extension_name, "ext") else { return fail() };
            if x.event_name == "e" && x.data == id.to_be_bytes() { Ok(id) } else { fail() }
        }
    }
}

fn kind_of(e: &Event) -> u8 {
    match e {
        Event::Operation(_) => 0,
        Event::Subgraph(_) => 1,
        Event::Http(_) => 2,
        Event::Extension(_) => 3,
    }
}

fn delay(rng: &mut Rng) {
    match rng.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..rng.below(300) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

fn run(case: &mut Case, producers: usize, consumers: usize, per: usize) -> Result<(), Viol> {
    let types: Vec<EventFilterType> = case.rng.subset(&KINDS, 60);
    let filter = match case.rng.below(6) {
        0 => None,
        1 | 2 => Some(EventFilter::All),
        _ => Some(EventFilter::Types(types.iter().fold(BitFlags::empty(), |a, t| a | *t))),
    };
    let kept = |k: u8| match &filter {
        None => false,
        Some(EventFilter::All) => true,
        Some(EventFilter::Types(f)) => f.contains(KINDS[k as usize]),
    };
    let input = format!("filter {filter:?}, {producers} producers x {per} pushes, {consumers} consumers");
    case.input(input.clone());
    let q = if filter.is_none() && case.rng.bool() { EventQueue::default() } else { EventQueue::new(filter) };
    let clock = AtomicU64::new(0);
    let running = AtomicUsize::new(producers);
    let stop = AtomicBool::new(false);
    let barrier = Barrier::new(producers + consumers);
    let seeds: Vec<u64> = (0..producers + consumers).map(|_| case.rng.u64()).collect();
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    type Out = Result<(Vec<Push>, Vec<Pop>, u64), Viol>;
    let outs: Vec<Out> = std::thread::scope(|s| {
        let mut hs = vec![];
        for p in 0..producers {
            let (q, tick, barrier, running) = (&q, &tick, &barrier, &running);
            let seed = seeds[p];
            hs.push(s.spawn(move || -> Out {
                let mut rng = Rng::new(seed);
                let mut log = Vec::with_capacity(per);
                let calls = Cell::new(0);
                barrier.wait();
                for i in 0..per {
                    delay(&mut rng);
                    let id = (p * 100_000 + i) as u64;
                    let kind = rng.below(4) as u8;
                    let start = tick();
                    push(q, kind, id, &calls);
                    log.push(Push { id, kind, start, end: tick() });
                    if rng.pct(5) {
                        // a failing extension event is reported and not queued
                        let r: Result<(), u64> = q.push_extension_event(|| Err(id));
                        if r.is_ok() && !matches!(q_filter(q), None) && q_keeps_ext(q) {
                            running.fetch_sub(1, Ordering::SeqCst);
                            return viol("extension-error", "the error of an extension event was swallowed");
                        }
                    }
                }
                running.fetch_sub(1, Ordering::SeqCst);
                Ok((log, vec![], calls.get()))
            }));
        }
        for k in 0..consumers {
            let (q, tick, barrier, running, stop) = (&q, &tick, &barrier, &running, &stop);
            let seed = seeds[producers + k];
            hs.push(s.spawn(move || -> Out {
                let mut rng = Rng::new(seed);
                let mut log = vec![];
                barrier.wait();
                loop {
                    delay(&mut rng);
                    let done = running.load(Ordering::SeqCst) == 0;
                    let start = tick();
                    let e = q.pop();
                    let end = tick();
                    match e {
                        Some(e) => log.push(Pop { id: Some(identify(&e)? * 4 + kind_of(&e) as u64), start, end }),
                        None => {
                            if log.len() < 20_000 {
                                log.push(Pop { id: None, start, end });
                            }
                            if done || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            std::thread::yield_now();
                        }
                    }
                }
                Ok((vec![], log, 0))
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (mut pushes, mut pops, mut calls) = (vec![], vec![], 0);
    let mut consumer_logs = vec![];
    for o in outs {
        let (a, b, c) = o?;
        pushes.extend(a);
        if !b.is_empty() {
            consumer_logs.push(b.clone());
        }
        pops.extend(b);
        calls += c;
    }
    let start = tick();
    ensure!(q.pop().is_none(), "not-drained", "events remain after every consumer saw the end: {input}");
    let _ = start;
    // exactly once, and the filter
    let mut popped: HashMap<u64, &Pop> = HashMap::new();
    for p in &pops {
        if let Some(id) = p.id {
            if popped.insert(id, p).is_some() {
                return viol("duplicate", format!("event {id} was popped twice: {input}"));
            }
        }
    }
    let mut expected = 0;
    for p in &pushes {
        let key = p.id * 4 + p.kind as u64;
        let got = popped.get(&key);
        if kept(p.kind) {
            expected += 1;
            ensure!(got.is_some(), "lost", "{p:?} never came out: {input}");
            ensure!(got.unwrap().end > p.start, "before-push", "{p:?} popped before it was pushed {got:?}");
        } else {
            ensure!(got.is_none(), "filter", "{p:?} was filtered out but came out: {input}");
        }
    }
    ensure!(popped.len() == expected, "invented", "{} popped, {expected} kept pushes: {input}", popped.len());
    let ext = pushes.iter().filter(|p| p.kind == 3 && kept(3)).count() as u64;
    ensure!(calls == ext, "extension-closure", "the extension closure ran {calls} times for {ext} kept events: {input}");
    // real-time order: if push a ended before push b started, b must not be popped (entirely) before a
    let mut seq: Vec<(&Push, &Pop)> =
        pushes.iter().filter(|p| kept(p.kind)).map(|p| (p, popped[&(p.id * 4 + p.kind as u64)])).collect();
    seq.sort_by_key(|(p, _)| p.start);
    // for each a: min over b pushed strictly later of pop end; must be > pop start of a
    let mut suffix: Vec<(u64, u64)> = seq.iter().map(|(p, o)| (p.start, o.end)).collect(); // sorted by push start
    for i in (0..suffix.len().saturating_sub(1)).rev() {
        suffix[i].1 = suffix[i].1.min(suffix[i + 1].1);
    }
    for (a, o) in &seq {
        let i = suffix.partition_point(|(s, _)| *s <= a.end);
        if i < suffix.len() {
            ensure!(suffix[i].1 > o.start, "fifo", "{a:?} (popped {o:?}) was overtaken by an event pushed after it: {input}");
        }
    }
    // an empty answer needs a moment at which the queue could be empty
    let mut by_push_end: Vec<(u64, u64)> = seq.iter().map(|(p, o)| (p.end, o.start)).collect();
    by_push_end.sort();
    let mut prefix_max = vec![];
    let mut m = 0;
    for (_, s) in &by_push_end {
        m = m.max(*s);
        prefix_max.push(m);
    }
    let mut empties = 0;
    for p in pops.iter().filter(|p| p.id.is_none()) {
        empties += 1;
        let i = by_push_end.partition_point(|(e, _)| *e < p.start);
        if i > 0 {
            ensure!(prefix_max[i - 1] < p.end, "empty", "a pop {p:?} said empty while an event was in the queue: {input}");
        }
    }
    // FIFO of one producer as seen by one consumer
    for log in &consumer_logs {
        let mut last: HashMap<u64, u64> = HashMap::new();
        for id in log.iter().filter_map(|p| p.id) {
            let (prod, i) = (id / 4 / 100_000, id / 4 % 100_000);
            if let Some(l) = last.insert(prod, i) {
                ensure!(l < i, "producer-order", "producer {prod}: {i} came after {l}: {input}");
            }
        }
    }
    let interleaving: Vec<u64> = {
        let mut v: Vec<(u64, u64)> = pushes.iter().map(|p| (p.start, p.id / 100_000)).chain(pops.iter().map(|p| (p.start, 1000))).collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    };
    if expected > 0 && producers > 1 {
        case.nontrivial(&interleaving);
    }
    case.seen("interleavings", &interleaving);
    case.count("events pushed", pushes.len() as u64);
    case.count("events popped", popped.len() as u64);
    case.count("empty answers judged", empties);
    case.sample(format!("{input}: {expected} events kept, {} popped", popped.len()));
    Ok(())
}

fn q_filter(_q: &EventQueue) -> Option<()> {
    Some(())
}
/// Whether the queue keeps extension events, observed through the closure being run.
fn q_keeps_ext(q: &EventQueue) -> bool {
    let ran = Cell::new(false);
    let _: Result<(), ()> = q.push_extension_event(|| {
        ran.set(true);
        Err(())
    });
    ran.get()
}

fn main() {
    let mut c = Check::new("S05", "a concurrent history in which events are kept, identified by its interleaving of pushes and pops");
    c.stream("small", vcommon::Stream { quick: 1500, thorough: 60_000, threads: 3 }, |case| {
        let (p, k, n) = (case.rng.range(1, 4), case.rng.range(1, 4), case.rng.range(1, 25));
        run(case, p, k, n)
    });
    c.stream("stress", vcommon::Stream { quick: 60, thorough: 3000, threads: 2 }, |case| {
        let (p, k) = (case.rng.range(2, 6), case.rng.range(1, 4));
        run(case, p, k, 1500)
    });
    c.require("events popped", 20_000);
    c.require("empty answers judged", 100);
    c.assume("the interleavings are those the scheduler of this machine produced under injected delays");
    c.finish();
}
