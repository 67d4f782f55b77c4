//! A federation with its gateway, its world and a record of what reached the subgraphs.
use crate::{
    gql::{self, Document, OpKind},
    ops::Op,
    rt::{Answer, Backend, Gateway, Options, Req, gateway},
    view,
    world::{Exec, Fed, trespasses},
};
use bytes::Bytes;
use futures::future::BoxFuture;
use runtime::fetch::FetchResult;
use serde_json::{Map, Value as J, json};
use std::sync::{
    Arc, Mutex,
    atomic::{AtomicU64, Ordering},
};
use vcommon::{Rng, Viol, hash_of, viol};

/// One request as a subgraph got it.
#[derive(Clone, Debug)]
pub struct Seen {
    pub sub: usize,
    pub query: String,
    pub variables: J,
    pub headers: http::HeaderMap,
    pub mutation: bool,
    pub problems: Vec<(String, String)>,
    pub entities: bool,
    pub answer: J,
}

/// Changes an answer before the gateway gets it.
pub type Meddle = Box<dyn Fn(&Seen, usize) -> Option<FetchResult<http::Response<Bytes>>> + Send + Sync>;

pub struct Mock {
    pub fed: Arc<Fed>,
    pub log: Mutex<Vec<Seen>>,
    pub steps: AtomicU64,
    /// Root fields of mutations, in the order of their execution.
    pub mutated: Mutex<Vec<String>>,
    pub delays: Mutex<Option<Rng>>,
    pub meddle: Mutex<Option<Meddle>>,
}

impl Mock {
    pub fn new(fed: Arc<Fed>) -> Arc<Mock> {
        Arc::new(Mock {
            fed,
            log: Mutex::default(),
            steps: AtomicU64::new(0),
            mutated: Mutex::default(),
            delays: Mutex::default(),
            meddle: Mutex::default(),
        })
    }

    fn answer(&self, r: &Req) -> Seen {
        let body: J = serde_json::from_slice(&r.body).unwrap_or(J::Null);
        let query = body["query"].as_str().unwrap_or("").to_owned();
        let mut seen = Seen {
            sub: self.fed.names.iter().position(|n| *n == r.subgraph).unwrap_or(usize::MAX),
            query,
            variables: body.get("variables").cloned().unwrap_or(J::Null),
            headers: r.headers.clone(),
            mutation: r.mutation,
            problems: vec![],
            entities: false,
            answer: J::Null,
        };
        let mut bad = |sig: &str, msg: String| seen.problems.push((sig.to_owned(), msg));
        if seen.sub == usize::MAX {
            bad("unknown-subgraph", format!("a request to {:?}", r.subgraph));
            return seen;
        }
        let view = &self.fed.subs[seen.sub];
        let doc: Document = match gql::parse(&seen.query) {
            Ok(d) => d,
            Err(e) => {
                bad("subgraph-syntax", e);
                return seen;
            }
        };
        let invalid = view::validate(view, &doc);
        if !invalid.is_empty() {
            for e in invalid {
                bad("subgraph-validation", e);
            }
            return seen;
        }
        let op = &doc.ops[0];
        if (op.kind == OpKind::Mutation) != r.mutation {
            bad("mutation-flag", format!("a {:?} sent as mutation={}", op.kind, r.mutation));
        }
        let empty = Map::new();
        let given = seen.variables.as_object().unwrap_or(&empty);
        if let Some(extra) = given.keys().find(|k| !op.vars.iter().any(|v| v.name == **k)) {
            bad("subgraph-variables", format!("${extra} is given, but not defined"));
        }
        let vars = match view::coerce_vars(view, op, given) {
            Ok(v) => v,
            Err(e) => {
                bad("subgraph-variables", e);
                return seen;
            }
        };
        seen.problems.extend(trespasses(&self.fed, seen.sub, &doc));
        seen.entities = seen.query.contains("_entities");
        let step = |name: &str, _: &Map<String, J>| {
            self.mutated.lock().unwrap().push(name.to_owned());
            self.steps.fetch_add(1, Ordering::SeqCst)
        };
        let exec =
            Exec { fed: &self.fed, view, doc: &doc, vars, sub: Some(seen.sub), step: Some(&step), problems: Default::default(), notes: false };
        let data = exec.run();
        seen.problems.extend(exec.problems.into_inner());
        seen.answer = json!({ "data": data });
        seen
    }
}

impl Backend for Mock {
    fn fetch(&self, r: Req) -> BoxFuture<'_, FetchResult<http::Response<Bytes>>> {
        Box::pin(async move {
            let pause = self.delays.lock().unwrap().as_mut().map(|r| r.below(6));
            for _ in 0..pause.unwrap_or(0) {
                tokio::task::yield_now().await;
            }
            let seen = self.answer(&r);
            let pause = self.delays.lock().unwrap().as_mut().map(|r| r.below(6));
            for _ in 0..pause.unwrap_or(0) {
                tokio::task::yield_now().await;
            }
            let n = {
                let mut log = self.log.lock().unwrap();
                log.push(seen.clone());
                log.len() - 1
            };
            if let Some(m) = &*self.meddle.lock().unwrap()
                && let Some(changed) = m(&seen, n)
            {
                return changed;
            }
            let body = if seen.answer.is_null() {
                json!({"errors": [{"message": "the harness refuses this request"}], "data": null})
            } else {
                seen.answer
            };
            Ok(respond(200, "application/json", body.to_string()))
        })
    }
}

pub fn respond(status: u16, kind: &str, body: String) -> http::Response<Bytes> {
    http::Response::builder().status(status).header("content-type", kind).body(Bytes::from(body)).unwrap()
}

pub struct Lab {
    pub fed: Arc<Fed>,
    pub mock: Arc<Mock>,
    pub gateway: Gateway,
    pub sdl: String,
}

pub fn compose(fed: &Fed) -> Result<String, String> {
    let mut s = graphql_composition::Subgraphs::default();
    for (n, sdl) in fed.names.iter().zip(&fed.sdl) {
        s.ingest_str(sdl, n, Some(&format!("http://sub/{n}"))).map_err(|e| format!("{n}: {e:?}"))?;
    }
    let r = graphql_composition::compose(&mut s);
    let errs: Vec<String> = r.diagnostics().iter_errors().map(|e| e.to_string()).collect();
    match r.into_result() {
        Ok(g) => graphql_composition::render_federated_sdl(&g).map_err(|e| e.to_string()),
        Err(_) => Err(errs.join("; ")),
    }
}

impl Lab {
    pub async fn new(fed: Fed, options: Options) -> Result<Lab, String> {
        let fed = Arc::new(fed);
        let sdl = compose(&fed)?;
        let mock = Mock::new(fed.clone());
        let gateway = gateway(&sdl, mock.clone(), options).await.map_err(|e| format!("no engine: {}", e.join("; ")))?;
        Ok(Lab { fed, mock, gateway, sdl })
    }

    /// What a single server with all the data would answer.
    pub fn expected(&self, op: &Op, step: Option<&(dyn Fn(&str, &Map<String, J>) -> u64 + Sync)>) -> J {
        self.execute(op, step, false)
    }

    /// The same with notes of what the objects are.
    pub fn annotated(&self, op: &Op) -> J {
        self.execute(op, None, true)
    }

    fn execute(&self, op: &Op, step: Option<&(dyn Fn(&str, &Map<String, J>) -> u64 + Sync)>, notes: bool) -> J {
        let vars = view::coerce_vars(&self.fed.api, &op.doc.ops[0], &op.vars).unwrap();
        let view = &self.fed.api;
        let exec = Exec { fed: &self.fed, view, doc: &op.doc, vars, sub: None, step, problems: Default::default(), notes };
        J::Object(exec.run())
    }

    pub async fn ask(&self, op: &Op) -> Answer {
        self.gateway.post(json!({"query": gql::print(&op.doc), "variables": op.vars}), &[]).await
    }

    pub fn take_log(&self) -> Vec<Seen> {
        std::mem::take(&mut self.mock.log.lock().unwrap())
    }

    pub fn describe(&self, op: &Op) -> String {
        let mut o = String::new();
        for (n, s) in self.fed.names.iter().zip(&self.fed.sdl) {
            o.push_str(&format!("# subgraph {n}\n{s}\n"));
        }
        o.push_str(&format!("# operation\n{}\n# variables {}\n", gql::print(&op.doc), J::Object(op.vars.clone())));
        o
    }
}

pub fn describe_log(log: &[Seen], names: &[String]) -> String {
    log.iter()
        .map(|s| {
            format!("-> {} {} {}\n<- {}\n", names.get(s.sub).map(|s| s.as_str()).unwrap_or("?"), s.query.replace('\n', " "), s.variables, s.answer)
        })
        .collect()
}

/// Runs one thing on a scheduler of its own.
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap().block_on(f)
}

pub fn json_of(a: &Answer) -> Result<J, Viol> {
    match serde_json::from_slice(&a.body) {
        Ok(j) => Ok(j),
        Err(e) => viol("response-not-json", format!("{e}: {}", String::from_utf8_lossy(&a.body))),
    }
}

pub fn key(op: &Op) -> u64 {
    hash_of(&gql::print(&op.doc))
}
