//! Only what it takes to compile: usage reports go nowhere.
pub mod agent {
    pub mod usage_agent {
        use graphql_tools::static_graphql::schema::Document;
        use std::{sync::Arc, time::Duration};

        pub struct ExecutionReport {
            pub schema: Arc<Document>,
            pub client_name: Option<String>,
            pub client_version: Option<String>,
            pub timestamp: u64,
            pub duration: Duration,
            pub ok: bool,
            pub errors: usize,
            pub operation_body: String,
            pub operation_name: Option<String>,
            pub persisted_document_hash: Option<String>,
        }

        #[derive(Clone)]
        pub struct UsageAgent;
        pub struct Builder;

        impl UsageAgent {
            pub fn builder() -> Builder {
                Builder
            }
        }
        impl Builder {
            pub fn token(self, _token: String) -> Self {
                self
            }
            pub fn target_id(self, _id: String) -> Self {
                self
            }
            pub fn build(self) -> Result<UsageAgent, String> {
                Ok(UsageAgent)
            }
        }

        #[allow(async_fn_in_trait)]
        pub trait UsageAgentExt {
            fn add_report(&self, report: ExecutionReport) -> impl std::future::Future<Output = Result<(), String>> + Send;
            fn start_flush_interval(
                &self,
                token: &tokio_util::sync::CancellationToken,
            ) -> impl std::future::Future<Output = ()> + Send;
        }
        impl UsageAgentExt for UsageAgent {
            async fn add_report(&self, _report: ExecutionReport) -> Result<(), String> {
                Ok(())
            }
            async fn start_flush_interval(&self, _token: &tokio_util::sync::CancellationToken) {}
        }
    }
}
