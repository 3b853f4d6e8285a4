//! Store-only stand-in for the zip crate (0.6.6), used only while the rest of the
//! program is executed symbolically: same API surface, same observable archive
//! semantics (entries in order, duplicate names kept, last one wins by name,
//! FileNotFound, InvalidArchive for anything that is not an archive), no compression.
//! Counterexamples are replayed natively with the real crate.
use std::io::{self, Read, Seek, Write};

pub mod result {
    use std::{error::Error, fmt, io};
    pub type ZipResult<T> = Result<T, ZipError>;
    #[derive(Debug)]
    pub enum ZipError { Io(io::Error), InvalidArchive(&'static str), UnsupportedArchive(&'static str), FileNotFound }
    impl From<io::Error> for ZipError { fn from(e: io::Error) -> Self { ZipError::Io(e) } }
    impl fmt::Display for ZipError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                ZipError::Io(e) => write!(f, "{e}"),
                ZipError::InvalidArchive(e) => write!(f, "invalid Zip archive: {e}"),
                ZipError::UnsupportedArchive(e) => write!(f, "unsupported Zip archive: {e}"),
                ZipError::FileNotFound => write!(f, "specified file not found in archive"),
            }
        }
    }
    impl Error for ZipError { fn source(&self) -> Option<&(dyn Error + 'static)> { match self { ZipError::Io(e) => Some(e), _ => None } } }
    impl From<ZipError> for io::Error { fn from(e: ZipError) -> io::Error { io::Error::new(io::ErrorKind::Other, e) } }
}
use result::{ZipError, ZipResult};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum CompressionMethod { Stored, Deflated, Bzip2, Aes, Zstd }
impl CompressionMethod {
    pub const STORE: Self = CompressionMethod::Stored;
    pub const DEFLATE: Self = CompressionMethod::Deflated;
}
#[derive(Clone, Copy, Debug, Default)]
pub struct DateTime;

pub mod write {
    pub use super::ZipWriter;
    #[derive(Clone, Copy, Debug)]
    pub struct FileOptions { pub(crate) method: super::CompressionMethod }
    impl Default for FileOptions { fn default() -> Self { FileOptions { method: super::CompressionMethod::Deflated } } }
    impl FileOptions {
        pub fn compression_method(mut self, m: super::CompressionMethod) -> Self { self.method = m; self }
        pub fn compression_level(self, _: Option<i32>) -> Self { self }
        pub fn last_modified_time(self, _: super::DateTime) -> Self { self }
        pub fn unix_permissions(self, _: u32) -> Self { self }
        pub fn large_file(self, _: bool) -> Self { self }
    }
}
pub mod read { pub use super::{ZipArchive, ZipFile}; }
use write::FileOptions;

pub const MAGIC: &[u8; 8] = b"PK\x03\x04SYMX";

pub struct ZipWriter<W: Write + Seek> { inner: Option<W>, files: Vec<(String, Vec<u8>)>, open: bool }
impl<W: Write + Seek> ZipWriter<W> {
    pub fn new(inner: W) -> Self { ZipWriter { inner: Some(inner), files: Vec::new(), open: false } }
    pub fn start_file<S: Into<String>>(&mut self, name: S, _o: FileOptions) -> ZipResult<()> {
        if self.inner.is_none() { return Err(closed()); }
        self.files.push((name.into(), Vec::new()));
        self.open = true;
        Ok(())
    }
    pub fn add_directory<S: Into<String>>(&mut self, name: S, _o: FileOptions) -> ZipResult<()> {
        let mut n: String = name.into();
        if !n.ends_with('/') && !n.ends_with('\\') { n.push('/'); }
        self.files.push((n, Vec::new()));
        self.open = false;
        Ok(())
    }
    pub fn finish(&mut self) -> ZipResult<W> {
        let mut w = self.inner.take().ok_or_else(closed)?;
        w.write_all(MAGIC)?;
        w.write_all(&(self.files.len() as u32).to_le_bytes())?;
        for (n, d) in &self.files {
            w.write_all(&(n.len() as u32).to_le_bytes())?;
            w.write_all(&(d.len() as u32).to_le_bytes())?;
            w.write_all(n.as_bytes())?;
            w.write_all(d)?;
        }
        Ok(w)
    }
    pub fn set_comment<S: Into<String>>(&mut self, _c: S) {}
}
fn closed() -> ZipError { ZipError::Io(io::Error::new(io::ErrorKind::BrokenPipe, "ZipWriter was already closed")) }
impl<W: Write + Seek> Write for ZipWriter<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.open { return Err(io::Error::new(io::ErrorKind::Other, "No file has been started")); }
        self.files.last_mut().unwrap().1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[derive(Clone)]
pub struct ZipArchive<R> { reader: R, data: Vec<u8>, files: Vec<(String, usize, usize)> }
impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<Self> {
        let mut data = Vec::new();
        reader.seek(io::SeekFrom::Start(0))?;
        reader.read_to_end(&mut data)?;
        const BAD: ZipError = ZipError::InvalidArchive("Invalid zip header");
        if data.len() < 12 || &data[..8] != MAGIC { return Err(BAD); }
        let u = |i: usize| -> Option<usize> { let b = data.get(i..i + 4)?; Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize) };
        let n = u(8).ok_or(BAD)?;
        let mut i = 12;
        let mut files = Vec::new();
        for _ in 0..n {
            let nl = u(i).ok_or(BAD)?;
            let dl = u(i + 4).ok_or(BAD)?;
            i += 8;
            let name = data.get(i..i + nl).ok_or(BAD)?;
            // the names come from Rust strings, so they are UTF-8 (as in the real crate's flag bit 11)
            let name = unsafe { String::from_utf8_unchecked(name.to_vec()) };
            i += nl;
            if i + dl > data.len() { return Err(BAD); }
            files.push((name, i, dl));
            i += dl;
        }
        if i != data.len() { return Err(BAD); }
        Ok(ZipArchive { reader, data, files })
    }
    pub fn len(&self) -> usize { self.files.len() }
    pub fn is_empty(&self) -> bool { self.files.is_empty() }
    pub fn file_names(&self) -> impl Iterator<Item = &str> { self.files.iter().map(|f| f.0.as_str()) }
    pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<ZipFile<'a>> {
        let i = self.files.iter().rposition(|f| f.0 == name).ok_or(ZipError::FileNotFound)?;
        self.by_index(i)
    }
    pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
        let f = self.files.get(i).ok_or(ZipError::FileNotFound)?;
        Ok(ZipFile { name: &f.0, data: &self.data[f.1..f.1 + f.2], pos: 0 })
    }
    pub fn into_inner(self) -> R { self.reader }
}
pub struct ZipFile<'a> { name: &'a str, data: &'a [u8], pos: usize }
impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str { self.name }
    pub fn size(&self) -> u64 { self.data.len() as u64 }
    pub fn compressed_size(&self) -> u64 { self.data.len() as u64 }
    pub fn is_dir(&self) -> bool { matches!(self.name.as_bytes().last(), Some(b'/') | Some(b'\\')) }
    pub fn is_file(&self) -> bool { !self.is_dir() }
    pub fn compression(&self) -> CompressionMethod { CompressionMethod::Stored }
    pub fn mangled_name(&self) -> std::path::PathBuf { std::path::PathBuf::from(self.name) }
    pub fn enclosed_name(&self) -> Option<&std::path::Path> {
        if self.name.contains('\0') { return None; }
        let p = std::path::Path::new(self.name);
        let mut depth = 0usize;
        for c in p.components() {
            match c {
                std::path::Component::Prefix(_) | std::path::Component::RootDir => return None,
                std::path::Component::ParentDir => depth = depth.checked_sub(1)?,
                std::path::Component::Normal(_) => depth += 1,
                std::path::Component::CurDir => {}
            }
        }
        Some(p)
    }
}
impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
