//! TLS is modelled as a transparent layer over the simulated TCP stream: a handshake is one record
//! from the client answered by one from the server. No cryptography is simulated.
pub mod error {
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    #[derive(Debug, Clone)]
    pub struct ErrorStack(pub Vec<Error>);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl std::error::Error for Error {}
    impl std::error::Error for ErrorStack {}
}
use error::{Error, ErrorStack};
fn bad(s: &str) -> ErrorStack {
    ErrorStack(vec![Error(s.into())])
}
pub mod pkey {
    pub struct PKey(pub(crate) String);
    impl PKey {
        pub fn private_key_from_pem_passphrase(
            pem: &[u8],
            pass: &[u8],
        ) -> Result<PKey, super::ErrorStack> {
            let s = String::from_utf8_lossy(pem).to_string();
            match s.strip_prefix("SIMKEY ") {
                Some(r) if r.trim() == String::from_utf8_lossy(pass) => Ok(PKey(s)),
                _ => Err(super::bad("bad private key or passphrase")),
            }
        }
    }
}
pub mod x509 {
    pub struct X509(pub(crate) String);
    impl X509 {
        pub fn from_pem(pem: &[u8]) -> Result<X509, super::ErrorStack> {
            let s = String::from_utf8_lossy(pem).to_string();
            if s.starts_with("SIMCERT") {
                Ok(X509(s))
            } else {
                Err(super::bad("bad certificate"))
            }
        }
    }
}
pub mod ssl {
    use super::{error, pkey::PKey, x509::X509, ErrorStack};
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for Error {}
    impl From<ErrorStack> for Error {
        fn from(e: ErrorStack) -> Self {
            Error(e.to_string())
        }
    }
    impl From<error::Error> for Error {
        fn from(e: error::Error) -> Self {
            Error(e.to_string())
        }
    }
    pub struct SslMethod(());
    impl SslMethod {
        pub fn tls() -> Self {
            Self(())
        }
        pub fn tls_server() -> Self {
            Self(())
        }
    }
    #[derive(Clone)]
    pub struct SslContextRef(());
    #[derive(Clone)]
    pub struct SslAcceptor(SslContextRef);
    pub struct SslAcceptorBuilder {
        cert: bool,
        key: bool,
    }
    impl SslAcceptor {
        pub fn mozilla_intermediate_v5(_: SslMethod) -> Result<SslAcceptorBuilder, ErrorStack> {
            Ok(SslAcceptorBuilder {
                cert: false,
                key: false,
            })
        }
        pub fn mozilla_intermediate(m: SslMethod) -> Result<SslAcceptorBuilder, ErrorStack> {
            Self::mozilla_intermediate_v5(m)
        }
        pub fn mozilla_modern_v5(m: SslMethod) -> Result<SslAcceptorBuilder, ErrorStack> {
            Self::mozilla_intermediate_v5(m)
        }
        pub fn context(&self) -> &SslContextRef {
            &self.0
        }
    }
    impl SslAcceptorBuilder {
        pub fn set_certificate(&mut self, _: &X509) -> Result<(), ErrorStack> {
            self.cert = true;
            Ok(())
        }
        pub fn set_private_key(&mut self, _: &PKey) -> Result<(), ErrorStack> {
            self.key = true;
            Ok(())
        }
        pub fn check_private_key(&self) -> Result<(), ErrorStack> {
            if self.cert && self.key {
                Ok(())
            } else {
                Err(super::bad("no certificate or key"))
            }
        }
        pub fn build(self) -> SslAcceptor {
            SslAcceptor(SslContextRef(()))
        }
    }
    pub struct Ssl(());
    impl Ssl {
        pub fn new(_: &SslContextRef) -> Result<Ssl, ErrorStack> {
            Ok(Ssl(()))
        }
    }
}
