//! The node the worker runs on: exchanges answering by URL, a virtual clock, local storage and a transaction pool.
use parking_lot::Mutex;
use sp_core::offchain::{
    DbExternalities, Externalities, HttpError, HttpRequestId, HttpRequestStatus, OpaqueNetworkState, StorageKind, Timestamp, TransactionPool,
};
use sp_core::OpaquePeerId;
use std::{collections::BTreeMap, sync::Arc};

#[derive(Clone, Debug)]
pub enum Answer {
    /// status, milliseconds until it is there, body, bytes after which the connection breaks
    Http { status: u16, delay: u64, body: Vec<u8>, breaks: Option<usize> },
    /// no connection
    Io { delay: u64 },
    /// the request cannot even be started
    Refused,
}
struct Req {
    url: String,
    ready: u64,
    started: bool,
    read: usize,
}
#[derive(Default)]
pub struct Inner {
    pub now: u64,
    pub answers: BTreeMap<String, Answer>,
    reqs: BTreeMap<u16, Req>,
    next: u16,
    pub asked: Vec<String>,
    pub db: BTreeMap<Vec<u8>, Vec<u8>>,
    pub pool: Vec<Vec<u8>>,
    pub pool_full: bool,
}
#[derive(Clone, Default)]
pub struct Node(pub Arc<Mutex<Inner>>);

impl Externalities for Node {
    fn is_validator(&self) -> bool {
        true
    }
    fn network_state(&self) -> Result<OpaqueNetworkState, ()> {
        Err(())
    }
    fn timestamp(&mut self) -> Timestamp {
        Timestamp::from_unix_millis(self.0.lock().now)
    }
    fn sleep_until(&mut self, deadline: Timestamp) {
        let mut n = self.0.lock();
        n.now = n.now.max(deadline.unix_millis());
    }
    fn random_seed(&mut self) -> [u8; 32] {
        [7; 32]
    }
    fn http_request_start(&mut self, _method: &str, uri: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
        let mut n = self.0.lock();
        n.asked.push(uri.into());
        let delay = match n.answers.get(uri) {
            Some(Answer::Refused) => return Err(()),
            Some(Answer::Http { delay, .. }) | Some(Answer::Io { delay }) => *delay,
            None => 0,
        };
        let id = n.next;
        n.next = n.next.wrapping_add(1);
        let ready = n.now + delay;
        n.reqs.insert(id, Req { url: uri.into(), ready, started: false, read: 0 });
        Ok(HttpRequestId(id))
    }
    fn http_request_add_header(&mut self, id: HttpRequestId, _name: &str, _value: &str) -> Result<(), ()> {
        self.0.lock().reqs.contains_key(&id.0).then_some(()).ok_or(())
    }
    fn http_request_write_body(&mut self, id: HttpRequestId, chunk: &[u8], _deadline: Option<Timestamp>) -> Result<(), HttpError> {
        let mut n = self.0.lock();
        let r = n.reqs.get_mut(&id.0).ok_or(HttpError::Invalid)?;
        if r.started {
            return Err(HttpError::Invalid);
        }
        r.started |= chunk.is_empty();
        Ok(())
    }
    fn http_response_wait(&mut self, ids: &[HttpRequestId], deadline: Option<Timestamp>) -> Vec<HttpRequestStatus> {
        let mut n = self.0.lock();
        let until = deadline.map(|d| d.unix_millis()).unwrap_or(u64::MAX);
        let mut now = n.now;
        let mut out = vec![];
        for id in ids {
            let Some(r) = n.reqs.get(&id.0) else {
                out.push(HttpRequestStatus::Invalid);
                continue;
            };
            if r.ready > until {
                now = now.max(until);
                out.push(HttpRequestStatus::DeadlineReached);
                continue;
            }
            now = now.max(r.ready);
            match n.answers.get(&r.url) {
                Some(Answer::Http { status, .. }) => out.push(HttpRequestStatus::Finished(*status)),
                Some(_) => {
                    n.reqs.remove(&id.0);
                    out.push(HttpRequestStatus::IoError)
                },
                None => out.push(HttpRequestStatus::Finished(404)),
            }
        }
        n.now = now;
        out
    }
    fn http_response_headers(&mut self, _id: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
        vec![]
    }
    fn http_response_read_body(&mut self, id: HttpRequestId, buffer: &mut [u8], _deadline: Option<Timestamp>) -> Result<usize, HttpError> {
        let mut n = self.0.lock();
        let r = n.reqs.get(&id.0).ok_or(HttpError::Invalid)?;
        let (body, breaks) = match n.answers.get(&r.url) {
            Some(Answer::Http { body, breaks, .. }) => (body.clone(), *breaks),
            _ => (b"not found".to_vec(), None),
        };
        let read = r.read;
        let end = breaks.unwrap_or(body.len()).min(body.len());
        let k = buffer.len().min(end - read);
        buffer[..k].copy_from_slice(&body[read..read + k]);
        if k == 0 {
            n.reqs.remove(&id.0);
            return if end < body.len() { Err(HttpError::IoError) } else { Ok(0) };
        }
        n.reqs.get_mut(&id.0).expect("there").read += k;
        Ok(k)
    }
    fn set_authorized_nodes(&mut self, _nodes: Vec<OpaquePeerId>, _authorized_only: bool) {}
}
impl DbExternalities for Node {
    fn local_storage_set(&mut self, kind: StorageKind, key: &[u8], value: &[u8]) {
        assert!(matches!(kind, StorageKind::PERSISTENT));
        self.0.lock().db.insert(key.to_vec(), value.to_vec());
    }
    fn local_storage_clear(&mut self, _kind: StorageKind, key: &[u8]) {
        self.0.lock().db.remove(key);
    }
    fn local_storage_compare_and_set(&mut self, _kind: StorageKind, key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
        let mut n = self.0.lock();
        if n.db.get(key).map(|x| &x[..]) != old {
            return false;
        }
        n.db.insert(key.to_vec(), new.to_vec());
        true
    }
    fn local_storage_get(&mut self, _kind: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
        self.0.lock().db.get(key).cloned()
    }
}
impl TransactionPool for Node {
    fn submit_transaction(&mut self, xt: Vec<u8>) -> Result<(), ()> {
        let mut n = self.0.lock();
        if n.pool_full {
            return Err(());
        }
        n.pool.push(xt);
        Ok(())
    }
}
