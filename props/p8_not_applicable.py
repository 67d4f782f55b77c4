NOT = "it cannot be executed in this sandbox: wasmtime, axum and other dependencies are not installed and too large for stand-ins, and runtime monitoring judges executions only"
PROPS = [
 dict(id="N01", title="Extensions are confined to what the gateway grants them",
  statement="A WASM extension reaches the network, the environment, standard streams and the clock only where its permissions allow it, and a failing or trapping extension fails only the requests it takes part in.",
  over=["inputs", "configurations"], for_all="every extension and every set of permissions",
  why="Tests run a few benign extensions.",
  files=["crates/wasi-component-loader/src"], mechanism=[("WASI state of extensions", "crates/wasi-component-loader/src")],
  not_applicable=NOT),
 dict(id="N02", title="The gateway serves only requests its listeners are configured to admit",
  statement="The HTTP server applies CORS, CSRF protection, body limits, authentication, TLS and rate limits to every request before the engine sees it, and reloads graphs and configuration without dropping requests.",
  over=["inputs", "schedules", "configurations"], for_all="every request, configuration and moment of a reload",
  why="Tests send single requests to a running server.",
  files=["crates/federated-server/src", "gateway/src", "crates/runtime-local/src"], mechanism=[("router and layers", "crates/federated-server/src")],
  not_applicable=NOT),
]
