use std::fmt;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub enum ErrorKind {
    NotImplemented(&'static str),
    Js(neon::result::Throw),
    Msg(String),
}

#[derive(Debug)]
pub struct Error(pub ErrorKind);

impl Error {
    pub fn kind(&self) -> &ErrorKind {
        &self.0
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            ErrorKind::NotImplemented(n) => write!(f, "Not implemented: {}", n),
            ErrorKind::Js(_) => write!(f, "JS exception"),
            ErrorKind::Msg(m) => write!(f, "{}", m),
        }
    }
}
impl std::error::Error for Error {}

impl From<neon::result::Throw> for Error {
    fn from(t: neon::result::Throw) -> Self {
        Error(ErrorKind::Js(t))
    }
}
impl From<String> for Error {
    fn from(m: String) -> Self {
        Error(ErrorKind::Msg(m))
    }
}
impl<'a> From<&'a str> for Error {
    fn from(m: &'a str) -> Self {
        Error(ErrorKind::Msg(m.to_string()))
    }
}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(ErrorKind::Msg(m.to_string()))
    }
}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(ErrorKind::Msg(m.to_string()))
    }
}
