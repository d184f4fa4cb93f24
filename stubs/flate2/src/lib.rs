//! Stand-in for `flate2` in the symbolic build: the gzip container (magic, blocks, end marker,
//! checksum) without the compression.  Data is buffered by the encoder and only complete after
//! finish/drop, truncated streams read as UnexpectedEof, foreign bytes as an invalid header.
use std::io::{self, BufRead, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression {
    pub const fn new(l: u32) -> Compression {
        Compression(l)
    }
    pub const fn none() -> Compression {
        Compression(0)
    }
    pub const fn fast() -> Compression {
        Compression(1)
    }
    pub const fn best() -> Compression {
        Compression(9)
    }
    pub fn level(&self) -> u32 {
        self.0
    }
}
impl Default for Compression {
    fn default() -> Compression {
        Compression(6)
    }
}

const HEADER: [u8; 10] = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 4, 0xff];
const BLOCK: usize = 0x8000;

#[derive(Debug)]
enum St {
    Header,
    Next,
    Body,
    End,
    Failed,
}

/// the decoder proper
#[derive(Debug)]
struct Dec<R> {
    inner: Option<R>,
    st: St,
    left: usize,
    sum: u32,
    /// further members follow
    multi: bool,
}
fn eof() -> io::Error {
    io::Error::from(io::ErrorKind::UnexpectedEof)
}
fn exact<R: Read>(r: &mut R, b: &mut [u8]) -> io::Result<()> {
    let mut n = 0;
    while n < b.len() {
        match r.read(&mut b[n..])? {
            0 => return Err(eof()),
            k => n += k,
        }
    }
    Ok(())
}
impl<R: Read> Dec<R> {
    fn new(r: R) -> Dec<R> {
        Dec { inner: Some(r), st: St::Header, left: 0, sum: 0, multi: false }
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let r = self.inner.as_mut().unwrap();
        loop {
            match self.st {
                St::End => return Ok(0),
                St::Failed => return Err(io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream")),
                St::Header | St::Next => {
                    let mut h = [0; 10];
                    if let St::Next = self.st {
                        if r.read(&mut h[..1])? == 0 {
                            self.st = St::End;
                            continue;
                        }
                        self.st = St::Header;
                        self.sum = 0;
                        exact(r, &mut h[1..])?;
                    } else {
                        exact(r, &mut h)?;
                    }
                    if h[0] != HEADER[0] || h[1] != HEADER[1] || h[2] != 8 {
                        self.st = St::Failed;
                        return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid gzip header"));
                    }
                    self.st = St::Body;
                }
                St::Body => {
                    if self.left == 0 {
                        let mut l = [0; 2];
                        exact(r, &mut l)?;
                        self.left = l[0] as usize | (l[1] as usize) << 8;
                        if self.left == 0 {
                            let mut t = [0; 8];
                            exact(r, &mut t)?;
                            let s = u32::from_le_bytes([t[0], t[1], t[2], t[3]]);
                            if s != self.sum {
                                self.st = St::Failed;
                                return Err(io::Error::new(
                                    io::ErrorKind::InvalidInput,
                                    "corrupt gzip stream does not have a matching checksum",
                                ));
                            }
                            self.st = if self.multi { St::Next } else { St::End };
                        }
                        continue;
                    }
                    let n = self.left.min(buf.len());
                    let k = r.read(&mut buf[..n])?;
                    if k == 0 {
                        return Err(eof());
                    }
                    for b in &buf[..k] {
                        self.sum = self.sum.wrapping_add(*b as u32);
                    }
                    self.left -= k;
                    return Ok(k);
                }
            }
        }
    }
}

/// the encoder proper
#[derive(Debug)]
struct Enc<W: Write> {
    inner: Option<W>,
    buf: Vec<u8>,
    out: Vec<u8>,
    header: bool,
    done: bool,
    sum: u32,
    size: u32,
}
impl<W: Write> Enc<W> {
    fn new(w: W) -> Enc<W> {
        Enc { inner: Some(w), buf: vec![], out: vec![], header: false, done: false, sum: 0, size: 0 }
    }
    fn dump(&mut self) -> io::Result<()> {
        while !self.out.is_empty() {
            let n = self.inner.as_mut().unwrap().write(&self.out)?;
            if n == 0 {
                return Err(io::ErrorKind::WriteZero.into());
            }
            self.out.drain(..n);
        }
        Ok(())
    }
    fn head(&mut self) {
        if !self.header {
            self.header = true;
            self.out.extend_from_slice(&HEADER);
        }
    }
    fn block(&mut self) {
        if !self.buf.is_empty() {
            let n = self.buf.len();
            self.out.push(n as u8);
            self.out.push((n >> 8) as u8);
            self.out.append(&mut self.buf);
        }
    }
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.head();
        self.dump()?;
        let n = b.len().min(BLOCK - 1);
        if self.buf.len() + n >= BLOCK {
            self.block();
            self.dump()?;
        }
        self.buf.extend_from_slice(&b[..n]);
        for x in &b[..n] {
            self.sum = self.sum.wrapping_add(*x as u32);
        }
        self.size = self.size.wrapping_add(n as u32);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.head();
        self.block();
        self.dump()?;
        self.inner.as_mut().unwrap().flush()
    }
    fn try_finish(&mut self) -> io::Result<()> {
        if !self.done {
            self.head();
            self.block();
            self.out.extend_from_slice(&[0, 0]);
            self.out.extend_from_slice(&self.sum.to_le_bytes());
            self.out.extend_from_slice(&self.size.to_le_bytes());
            self.done = true;
        }
        self.dump()
    }
}

pub mod read {
    use super::*;
    #[derive(Debug)]
    pub struct GzDecoder<R>(Dec<R>);
    impl<R: Read> GzDecoder<R> {
        pub fn new(r: R) -> GzDecoder<R> {
            GzDecoder(Dec::new(r))
        }
        pub fn get_ref(&self) -> &R {
            self.0.inner.as_ref().unwrap()
        }
        pub fn get_mut(&mut self) -> &mut R {
            self.0.inner.as_mut().unwrap()
        }
        pub fn into_inner(mut self) -> R {
            self.0.inner.take().unwrap()
        }
    }
    impl<R: Read> Read for GzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.0.read(b)
        }
    }
    #[derive(Debug)]
    pub struct MultiGzDecoder<R>(Dec<R>);
    impl<R: Read> MultiGzDecoder<R> {
        pub fn new(r: R) -> MultiGzDecoder<R> {
            let mut d = Dec::new(r);
            d.multi = true;
            MultiGzDecoder(d)
        }
        pub fn get_ref(&self) -> &R {
            self.0.inner.as_ref().unwrap()
        }
        pub fn get_mut(&mut self) -> &mut R {
            self.0.inner.as_mut().unwrap()
        }
        pub fn into_inner(mut self) -> R {
            self.0.inner.take().unwrap()
        }
    }
    impl<R: Read> Read for MultiGzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.0.read(b)
        }
    }
}
pub mod bufread {
    use super::*;
    #[derive(Debug)]
    pub struct GzDecoder<R>(Dec<R>);
    impl<R: BufRead> GzDecoder<R> {
        pub fn new(r: R) -> GzDecoder<R> {
            GzDecoder(Dec::new(r))
        }
    }
    impl<R: BufRead> Read for GzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.0.read(b)
        }
    }
}
pub mod write {
    use super::*;
    #[derive(Debug)]
    pub struct GzEncoder<W: Write>(Enc<W>);
    impl<W: Write> GzEncoder<W> {
        pub fn new(w: W, _: Compression) -> GzEncoder<W> {
            GzEncoder(Enc::new(w))
        }
        pub fn get_ref(&self) -> &W {
            self.0.inner.as_ref().unwrap()
        }
        pub fn get_mut(&mut self) -> &mut W {
            self.0.inner.as_mut().unwrap()
        }
        pub fn try_finish(&mut self) -> io::Result<()> {
            self.0.try_finish()
        }
        pub fn finish(mut self) -> io::Result<W> {
            self.0.try_finish()?;
            Ok(self.0.inner.take().unwrap())
        }
    }
    impl<W: Write> Write for GzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.flush()
        }
    }
    impl<W: Write> Drop for GzEncoder<W> {
        fn drop(&mut self) {
            if self.0.inner.is_some() {
                let _ = self.0.try_finish();
            }
        }
    }
}
