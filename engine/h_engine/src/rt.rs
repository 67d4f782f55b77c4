//! The engine with a runtime of our own: subgraphs, caches and clocks are under the control of the harness.
use bytes::Bytes;
use engine::{CachedOperation, ContractAwareEngine, EngineOperationContext, EngineRequestContext, RequestExtensions, Schema};
use engine_error::{ErrorResponse, GraphqlError};
use engine_schema::{DirectiveSite, ExtensionDirective, FieldDefinition, GraphqlSubgraph, Subgraph, VirtualSubgraph};
use event_queue::{EventQueue, SubgraphResponseBuilder};
use extension_catalog::ExtensionId;
use futures::{future::BoxFuture, stream::BoxStream};
use grafbase_telemetry::metrics::{EngineMetrics, meter_from_global_provider};
use runtime::{
    entity_cache::EntityCache, extension::*, fetch::*, operation_cache::OperationCache, rate_limiting::RateLimiter,
    trusted_documents_client as td,
};
use std::{
    borrow::Cow,
    collections::{BTreeMap, HashMap},
    future::Future,
    ops::Range,
    sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}},
    time::Duration,
};

/// A request that reached a subgraph.
pub struct Req {
    pub subgraph: String,
    pub method: http::Method,
    pub headers: http::HeaderMap,
    pub body: Bytes,
    pub mutation: bool,
    pub timeout: Duration,
}

/// The other side of the engine.
pub trait Backend: Send + Sync + 'static {
    fn fetch(&self, request: Req) -> BoxFuture<'_, FetchResult<http::Response<Bytes>>>;
    fn subscribe(&self, _request: Req) -> BoxFuture<'_, FetchResult<BoxStream<'static, FetchResult<serde_json::Value>>>> {
        Box::pin(async { Err(FetchError::from("no subscriptions here")) })
    }
}

#[derive(Clone)]
pub struct Fetch(Arc<dyn Backend>);

fn host(url: &url::Url) -> String {
    url.path().trim_start_matches('/').trim_end_matches("/ws").to_owned()
}

impl Fetcher for Fetch {
    async fn fetch(
        &self,
        r: FetchRequest<'_>,
    ) -> (FetchResult<http::Response<Bytes>>, Option<SubgraphResponseBuilder>) {
        let request = Req {
            subgraph: host(&r.url),
            method: r.method,
            headers: r.headers,
            body: r.body,
            mutation: r.is_mutation,
            timeout: r.timeout,
        };
        (self.0.fetch(request).await, None)
    }

    async fn graphql_over_sse_stream(
        &self,
        r: WebsocketRequest<'_, Bytes>,
    ) -> FetchResult<impl futures::Stream<Item = FetchResult<Bytes>> + Send + 'static> {
        let request = Req {
            subgraph: host(&r.url),
            method: r.method,
            headers: r.headers,
            body: r.body,
            mutation: false,
            timeout: r.timeout,
        };
        let stream = self.0.subscribe(request).await?;
        Ok(futures::StreamExt::map(stream, |item| item.map(|v| Bytes::from(v.to_string()))))
    }

    async fn graphql_over_websocket_stream<T>(
        &self,
        r: WebsocketRequest<'_, T>,
    ) -> FetchResult<impl futures::Stream<Item = FetchResult<serde_json::Value>> + Send + 'static>
    where
        T: serde::Serialize + Send,
    {
        let request = Req {
            subgraph: host(&r.url),
            method: r.method,
            headers: r.headers,
            body: serde_json::to_vec(&r.body).unwrap().into(),
            mutation: false,
            timeout: r.timeout,
        };
        self.0.subscribe(request).await
    }
}

/// Remembers every prepared operation, unless it is off.
#[derive(Default)]
pub struct Operations {
    pub off: bool,
    map: Mutex<HashMap<String, Arc<CachedOperation>>>,
    pub hits: AtomicUsize,
}

impl OperationCache<Arc<CachedOperation>> for Operations {
    async fn insert(&self, key: String, value: Arc<CachedOperation>) {
        if !self.off {
            self.map.lock().unwrap().insert(key, value);
        }
    }
    async fn get(&self, key: &String) -> Option<Arc<CachedOperation>> {
        let found = self.map.lock().unwrap().get(key).cloned();
        if found.is_some() {
            self.hits.fetch_add(1, Ordering::Relaxed);
        }
        found
    }
}

/// Keeps what it is given until the harness moves the clock past its expiry.
#[derive(Default)]
pub struct Entities {
    map: Mutex<BTreeMap<String, (Vec<u8>, Duration)>>,
    pub now: Mutex<Duration>,
    pub hits: AtomicUsize,
    pub puts: AtomicUsize,
}

impl EntityCache for Entities {
    fn get<'a>(&'a self, name: &'a str) -> BoxFuture<'a, anyhow::Result<Option<Bytes>>> {
        let now = *self.now.lock().unwrap();
        let found = self.map.lock().unwrap().get(name).filter(|(_, until)| now < *until).map(|(b, _)| b.clone());
        self.hits.fetch_add(found.is_some() as usize, Ordering::Relaxed);
        Box::pin(async move { Ok(found.map(Bytes::from)) })
    }
    fn put<'a>(&'a self, name: &'a str, bytes: Cow<'a, [u8]>, ttl: Duration) -> BoxFuture<'a, anyhow::Result<()>> {
        let until = *self.now.lock().unwrap() + ttl;
        self.map.lock().unwrap().insert(name.to_owned(), (bytes.into_owned(), until));
        self.puts.fetch_add(1, Ordering::Relaxed);
        Box::pin(async { Ok(()) })
    }
}

pub struct Rt {
    pub fetcher: Fetch,
    pub trusted: td::Client,
    pub metrics: EngineMetrics,
    pub operations: Arc<Operations>,
    pub limiter: RateLimiter,
    pub entities: Arc<Entities>,
    pub extensions: NoExtensions,
}

impl engine::Runtime for Rt {
    type Fetcher = Fetch;
    type OperationCache = Operations;
    type Extensions = NoExtensions;

    fn fetcher(&self) -> &Fetch {
        &self.fetcher
    }
    fn trusted_documents(&self) -> &td::Client {
        &self.trusted
    }
    fn metrics(&self) -> &EngineMetrics {
        &self.metrics
    }
    fn operation_cache(&self) -> &Operations {
        &self.operations
    }
    fn rate_limiter(&self) -> &RateLimiter {
        &self.limiter
    }
    fn sleep(&self, duration: Duration) -> impl Future<Output = ()> + Send {
        tokio::time::sleep(duration)
    }
    fn entity_cache(&self) -> &dyn EntityCache {
        &*self.entities
    }
    fn extensions(&self) -> &NoExtensions {
        &self.extensions
    }
    async fn clone_and_adjust_for_contract(&self, _schema: &Arc<Schema>) -> Result<Self, String> {
        Err("no contracts here".into())
    }
}

pub struct Gateway {
    pub engine: Arc<ContractAwareEngine<Rt>>,
    pub operations: Arc<Operations>,
    pub entities: Arc<Entities>,
}

#[derive(Default)]
pub struct Options {
    pub config: gateway_config::Config,
    pub no_operation_cache: bool,
    pub trusted: Option<td::Client>,
}

/// The engine for a federated graph.
pub async fn gateway(sdl: &str, backend: Arc<dyn Backend>, options: Options) -> Result<Gateway, Vec<String>> {
    let schema = Schema::builder(sdl).config(&options.config).build().await?;
    let operations = Arc::new(Operations { off: options.no_operation_cache, ..Default::default() });
    let entities = Arc::new(Entities::default());
    let rt = Rt {
        fetcher: Fetch(backend),
        trusted: options.trusted.unwrap_or_else(|| td::Client::new(())),
        metrics: EngineMetrics::build(&meter_from_global_provider(), None),
        operations: operations.clone(),
        limiter: RateLimiter::default(),
        entities: entities.clone(),
        extensions: NoExtensions,
    };
    Ok(Gateway { engine: Arc::new(ContractAwareEngine::new(Arc::new(schema), rt)), operations, entities })
}

pub struct Answer {
    pub status: http::StatusCode,
    pub headers: http::HeaderMap,
    pub body: Bytes,
}

impl Gateway {
    pub async fn send(&self, request: http::Request<Bytes>) -> Answer {
        let (mut parts, body) = request.into_parts();
        parts.extensions.insert(RequestExtensions::default());
        let request = http::Request::from_parts(parts, async move { Ok(body) });
        let (parts, body) = self.engine.execute(request).await.into_parts();
        let body = match body {
            engine::Body::Bytes(bytes) => bytes,
            engine::Body::Stream(mut stream) => {
                let mut out = vec![];
                while let Some(Ok(part)) = futures::StreamExt::next(&mut stream).await {
                    out.extend_from_slice(&part);
                }
                out.into()
            }
        };
        Answer { status: parts.status, headers: parts.headers, body }
    }

    pub async fn post(&self, body: serde_json::Value, headers: &[(&str, &str)]) -> Answer {
        let mut request = http::Request::builder().method("POST").uri("http://gateway/graphql");
        let map = request.headers_mut().unwrap();
        map.insert("content-type", "application/json".parse().unwrap());
        map.insert("accept", "application/json".parse().unwrap());
        for (k, v) in headers {
            let name = http::HeaderName::from_bytes(k.as_bytes()).unwrap();
            if *k == "accept" {
                map.insert(name, v.parse().unwrap());
            } else {
                map.append(name, v.parse().unwrap());
            }
        }
        self.send(request.body(Bytes::from(body.to_string())).unwrap()).await
    }
}

/// No extension is installed.
#[derive(Clone)]
pub struct NoExtensions;

impl EngineExtensions<EngineRequestContext, EngineOperationContext> for NoExtensions {}

impl AuthorizationExtension<EngineRequestContext, EngineOperationContext> for NoExtensions {
    fn authorize_query<'ctx, 'fut, Extensions, Arguments>(
        &'ctx self,
        _ctx: EngineRequestContext,
        headers: http::HeaderMap,
        _extensions: Extensions,
        _directives: impl ExactSizeIterator<Item = (&'ctx str, Range<usize>)>,
        _query_elements: impl ExactSizeIterator<Item = QueryElement<'ctx, Arguments>>,
    ) -> impl Future<Output = Result<AuthorizeQuery, ErrorResponse>> + Send + 'fut
    where
        'ctx: 'fut,
        Extensions: IntoIterator<
                Item = (ExtensionId, Range<usize>, Range<usize>),
                IntoIter: ExactSizeIterator<Item = (ExtensionId, Range<usize>, Range<usize>)>,
            > + Send
            + Clone
            + 'ctx,
        Arguments: Anything<'ctx>,
    {
        async move { Ok(AuthorizeQuery { headers, decisions: vec![], context: vec![], state: vec![] }) }
    }

    fn authorize_response<'ctx, 'fut>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _extension_id: ExtensionId,
        _directive_name: &'ctx str,
        _directive_site: DirectiveSite<'ctx>,
        _items: impl IntoIterator<Item: Anything<'ctx>>,
    ) -> impl Future<Output = Result<AuthorizationDecisions, GraphqlError>> + Send + 'fut
    where
        'ctx: 'fut,
    {
        async { Ok(AuthorizationDecisions::GrantAll) }
    }
}

impl FieldResolverExtension for NoExtensions {
    fn resolve_field<'ctx, 'resp, 'f>(
        &'ctx self,
        _directive: ExtensionDirective<'ctx>,
        _field_definition: FieldDefinition<'ctx>,
        _subgraph_headers: http::HeaderMap,
        _directive_arguments: impl Anything<'ctx>,
        _inputs: impl Iterator<Item: Anything<'resp>> + Send,
    ) -> impl Future<Output = Result<Vec<Result<Data, GraphqlError>>, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async { unreachable!() }
    }

    fn resolve_subscription_field<'ctx, 'f>(
        &'ctx self,
        _directive: ExtensionDirective<'ctx>,
        _field_definition: FieldDefinition<'ctx>,
        _subgraph_headers: http::HeaderMap,
        _directive_arguments: impl Anything<'ctx>,
    ) -> impl Future<Output = Result<BoxStream<'f, Result<Data, GraphqlError>>, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async { unreachable!() }
    }
}

impl SelectionSetResolverExtension for NoExtensions {
    async fn prepare<'ctx, F: Field<'ctx>>(
        &'ctx self,
        _extension_id: ExtensionId,
        _subgraph: Subgraph<'ctx>,
        _field: F,
    ) -> Result<Vec<u8>, GraphqlError> {
        unreachable!()
    }

    fn resolve<'ctx, 'resp, 'f>(
        &'ctx self,
        _extension_id: ExtensionId,
        _subgraph: Subgraph<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: impl Iterator<Item = (ArgumentsId, impl Anything<'resp>)> + Send,
    ) -> impl Future<Output = Result<Data, GraphqlError>> + Send + 'f
    where
        'ctx: 'f,
    {
        async { unreachable!() }
    }
}

impl ResolverExtension<EngineOperationContext> for NoExtensions {
    async fn prepare<'ctx, F: Field<'ctx>>(
        &'ctx self,
        _event_queue: Arc<EventQueue>,
        _directive: ExtensionDirective<'ctx>,
        _directive_arguments: impl Anything<'ctx>,
        _field: F,
    ) -> Result<Vec<u8>, GraphqlError> {
        unreachable!()
    }

    type Arguments = ();
    fn prepare_arguments<'resp>(&self, _: impl IntoIterator<Item = (ArgumentsId, impl Anything<'resp>)> + Send) {}

    async fn resolve<'ctx>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _directive: ExtensionDirective<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: (),
    ) -> Response {
        unreachable!()
    }

    fn resolve_subscription<'ctx, 's>(
        &'ctx self,
        _ctx: EngineOperationContext,
        _directive: ExtensionDirective<'ctx>,
        _prepared_data: &'ctx [u8],
        _subgraph_headers: http::HeaderMap,
        _arguments: (),
    ) -> impl Future<Output = BoxStream<'s, Response>> + Send
    where
        'ctx: 's,
    {
        async { unreachable!() }
    }
}

impl ContractsExtension for NoExtensions {
    async fn construct(&self, _key: String, _schema: Schema) -> Option<Schema> {
        None
    }
}

impl EngineHooksExtension<EngineOperationContext> for NoExtensions {
    async fn on_graphql_subgraph_request<'r>(
        &self,
        _context: EngineOperationContext,
        _subgraph: GraphqlSubgraph<'_>,
        parts: ReqwestParts<'r>,
    ) -> Result<ReqwestParts<'r>, GraphqlError> {
        Ok(parts)
    }
    async fn on_virtual_subgraph_request(
        &self,
        _context: EngineOperationContext,
        _subgraph: VirtualSubgraph<'_>,
        headers: http::HeaderMap,
    ) -> Result<http::HeaderMap, GraphqlError> {
        Ok(headers)
    }
}
