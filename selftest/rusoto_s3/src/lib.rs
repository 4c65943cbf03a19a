//! Stand-in: there is no network here, every request fails.
use std::io::{Cursor, Read};

#[derive(Default)]
pub struct GetObjectRequest {
    pub bucket: String,
    pub key: String,
}
pub struct StreamingBody;
impl StreamingBody {
    pub fn into_blocking_read(self) -> impl Read {
        Cursor::new(Vec::new())
    }
}
pub struct GetObjectOutput {
    pub body: Option<StreamingBody>,
}
pub struct S3Client;
impl S3Client {
    pub fn new(_r: rusoto_core::Region) -> Self {
        S3Client
    }
}
pub struct Request;
impl Request {
    pub fn sync(self) -> Result<GetObjectOutput, String> {
        Err("no network".into())
    }
}
pub trait S3 {
    fn get_object(&self, r: GetObjectRequest) -> Request;
}
impl S3 for S3Client {
    fn get_object(&self, _r: GetObjectRequest) -> Request {
        Request
    }
}
