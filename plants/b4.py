BUGS = [
 dict(id='c22-bypass-lone', property='C22', edits=[('src/stream/buf_reader.rs', '''        if !self.buf.has_remaining_mut() && buf.remaining() >= self.buf.len() {
            let res = ready!(self.as_mut().get_pin_mut().poll_read(cx, buf));
            self.discard_buffer();
            return Poll::Ready(res);
        }
        let rem = ready!(self.as_mut().poll_fill_buf(cx))?;
        let amt = std::cmp::min(rem.len(), buf.remaining());
        buf.put_slice(&rem[..amt]);
        self.consume(amt);
        Poll::Ready(Ok(()))
    }
}

#[cfg(feature = "tokio")]
impl<R: tokio_dep::io::AsyncRead> tokio_dep::io::AsyncBufRead''', '''        if !self.buf.has_remaining_mut() || buf.remaining() > self.buf.capacity() {
            let res = ready!(self.as_mut().get_pin_mut().poll_read(cx, buf));
            self.discard_buffer();
            return Poll::Ready(res);
        }
        let rem = ready!(self.as_mut().poll_fill_buf(cx))?;
        let amt = std::cmp::min(rem.len(), buf.remaining());
        buf.put_slice(&rem[..amt]);
        self.consume(amt);
        Poll::Ready(Ok(()))
    }
}

#[cfg(feature = "tokio")]
impl<R: tokio_dep::io::AsyncRead> tokio_dep::io::AsyncBufRead''')],
  needs='something buffered and a read into more room than the capacity of the buffer',
  breaks='what was buffered is dropped: the bytes are lost',
  demo='''use combine::stream::buf_reader::BufReader;
use tokio_dep::io::{AsyncBufReadExt, AsyncReadExt};
fn main() {
    tokio_dep::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let data: Vec<u8> = (0..200u8).collect();
        let mut r = BufReader::with_capacity(16, &data[..]);
        let n = r.fill_buf().await.unwrap().len();
        r.consume(n.min(2));
        let mut rest = vec![0; 180];
        let k = r.read(&mut rest).await.unwrap();
        assert_eq!(&rest[..k], &data[2..2 + k]);
    });
}'''),
 dict(id='c22-short-room', property='C22', edits=[('src/stream/buf_reader.rs', '''        let rem = ready!(self.as_mut().poll_fill_buf(cx))?;
        let amt = std::cmp::min(rem.len(), buf.remaining());
        buf.put_slice(&rem[..amt]);
        self.consume(amt);
        Poll::Ready(Ok(()))
    }
}

#[cfg(feature = "tokio-03")]
impl<R: tokio_03_dep::io::AsyncRead> tokio_03_dep::io::AsyncBufRead''', '''        let rem = ready!(self.as_mut().poll_fill_buf(cx))?;
        let have = rem.len();
        let amt = std::cmp::min(have, buf.remaining());
        buf.put_slice(&rem[..amt]);
        self.consume(have);
        Poll::Ready(Ok(()))
    }
}

#[cfg(feature = "tokio-03")]
impl<R: tokio_03_dep::io::AsyncRead> tokio_03_dep::io::AsyncBufRead''')],
  needs='a read with less room than is buffered, on tokio 0.3',
  breaks='the rest of the buffer is skipped',
  demo='''use combine::stream::buf_reader::BufReader;
use tokio_03_dep::io::{AsyncRead, ReadBuf};
use std::{pin::Pin, task::{Context, Poll}};
struct R(Vec<u8>);
impl AsyncRead for R {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let n = self.0.len().min(b.remaining());
        let x: Vec<u8> = self.0.drain(..n).collect();
        b.put_slice(&x);
        Poll::Ready(Ok(()))
    }
}
fn main() {
    let w = futures_03_dep::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut r = BufReader::new(R((0..10).collect()));
    let mut got = vec![];
    for _ in 0..5 {
        let mut a = [0; 4];
        let mut b = ReadBuf::new(&mut a);
        assert!(Pin::new(&mut r).poll_read(&mut cx, &mut b).is_ready());
        got.extend_from_slice(b.filled());
    }
    assert_eq!(got, (0..10).collect::<Vec<u8>>());
}'''),
]
