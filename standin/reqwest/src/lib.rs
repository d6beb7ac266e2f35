//! Stand-in: there is no network, every request fails.
#[derive(Debug)]
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub mod blocking {
	use super::{Error, Result};
	pub struct Response;
	impl Response {
		pub fn text(self) -> Result<String> {
			Err(Error)
		}
	}
	pub fn get<U>(_url: U) -> Result<Response> {
		Err(Error)
	}
	pub struct Client;
	pub struct ClientBuilder;
	pub struct RequestBuilder;
	impl Client {
		pub fn builder() -> ClientBuilder {
			ClientBuilder
		}
		pub fn get<U>(&self, _url: U) -> RequestBuilder {
			RequestBuilder
		}
	}
	impl ClientBuilder {
		pub fn user_agent<V>(self, _v: V) -> Self {
			self
		}
		pub fn build(self) -> Result<Client> {
			Ok(Client)
		}
	}
	impl RequestBuilder {
		pub fn send(self) -> Result<Response> {
			Err(Error)
		}
	}
}
