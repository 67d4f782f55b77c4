use crate::universe::Sub;
use graphql_composition::{FederatedGraph, Subgraphs, compose, render_api_sdl, render_federated_sdl};
use vcommon::*;

pub struct Composed {
    pub federated: String,
    pub api: String,
    pub warnings: Vec<String>,
}

pub struct Rejected {
    pub errors: Vec<String>,
    pub codes: Vec<String>,
}

/// (subgraph name, url, SDL) in the order of ingestion.
pub fn compose_sdl(parts: &[(String, String, String)]) -> Result<Result<Composed, Rejected>, Viol> {
    let mut subgraphs = Subgraphs::default();
    for (name, url, sdl) in parts {
        if let Err(e) = subgraphs.ingest_str(sdl, name, Some(url.as_str())) {
            return Ok(Err(Rejected { errors: vec![format!("parse: {e}")], codes: vec![] }));
        }
    }
    let result = compose(&mut subgraphs);
    let fatal = result.diagnostics().any_fatal();
    let errors: Vec<String> = result.diagnostics().iter_errors().map(|s| s.to_string()).collect();
    let warnings: Vec<String> = result.diagnostics().iter_warnings().map(|s| s.to_string()).collect();
    let codes: Vec<String> = result
        .diagnostics()
        .iter()
        .filter_map(|d| d.composite_schemas_error_code().map(|c| format!("{c:?}")))
        .collect();
    ensure!(fatal == !errors.is_empty(), "fatal-without-error", "any_fatal is {fatal} but the errors are {errors:?}");
    match result.into_result() {
        Ok(g) => {
            ensure!(!fatal, "graph-despite-errors", "a graph came with fatal diagnostics {errors:?}");
            Ok(Ok(render(&g, warnings)?))
        }
        Err(_) => {
            ensure!(fatal, "rejected-silently", "no graph and no error (warnings: {warnings:?})");
            Ok(Err(Rejected { errors, codes }))
        }
    }
}

pub fn render(g: &FederatedGraph, warnings: Vec<String>) -> Result<Composed, Viol> {
    let federated = render_federated_sdl(g).or_else(|e| viol("render-failed", format!("render_federated_sdl: {e}")))?;
    Ok(Composed { federated, api: render_api_sdl(g), warnings })
}

pub fn parts(subs: &[Sub]) -> Vec<(String, String, String)> {
    subs.iter().map(|s| (s.name.clone(), s.url.clone(), s.sdl())).collect()
}

pub fn run(subs: &[Sub]) -> Result<Result<Composed, Rejected>, Viol> {
    compose_sdl(&parts(subs))
}
