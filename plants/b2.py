BUGS = [
 dict(id='c12-range-column', property='C12', file='src/stream/position.rs',
  old='''        for c in range.chars() {
            self.update(&c);
        }''',
  new='''        match range.rfind('\\n') {
            None => self.column += range.len() as i32,
            Some(i) => {
                self.line += range.matches('\\n').count() as i32;
                self.column = 1 + range[i + 1..].chars().count() as i32;
            }
        }''',
  needs='a range taken by its size which holds a character of more than one byte and no newline',
  breaks='the column after such a range counts bytes and not characters',
  demo='''use combine::{*, parser::range::{range, take}, stream::position::{self, SourcePosition}};
fn main() {
    let mut p = (range("añb"), position()).map(|x: (&str, SourcePosition)| x.1);
    let at = p.parse(position::Stream::new("añb!")).unwrap().0;
    assert_eq!(at, SourcePosition { line: 1, column: 4 });
    let mut q = (take(4), position()).map(|x: (&str, SourcePosition)| x.1);
    assert_eq!(q.parse(position::Stream::new("ab\\nc!")).unwrap().0, SourcePosition { line: 2, column: 2 });
}'''),
 dict(id='c13-while-asks-twice', property='C13', file='src/stream/mod.rs',
  old='''    if !found {
        while let Some(c) = slice.get(i) {
            if !f(c.clone()) {
                break;
            }
            i += 1;
        }
    }

    let (result, remaining) = slice.split_at(i);''',
  new='''    if !found || len - i < 8 {
        while let Some(c) = slice.get(i) {
            if !f(c.clone()) {
                break;
            }
            i += 1;
        }
    }

    let (result, remaining) = slice.split_at(i);''',
  needs='a slice of at least eight elements, a predicate with a memory, and a refusal among the last eight elements while the unrolled loop runs',
  breaks='the element that was refused is offered to the predicate again, which may now accept it, so the range is too long',
  demo='''use combine::{*, parser::range::take_while};
fn main() {
    // everything up to the second zero byte... the first refusal ends the run
    let mut calls = 0;
    let input: &[u8] = b"aaaaa.bbb";
    let r = take_while(|b: u8| { calls += 1; b != b'.' || calls > 6 }).parse(input).unwrap().0;
    assert_eq!(r, &b"aaaaa"[..]);
    assert_eq!(calls, 6);
}'''),
 dict(id='c13-str-while-wide', property='C13', file='src/stream/mod.rs',
  old='''                    if !f(c) {
                        last_char_size = c.len_utf8();
                        break;
                    }
                }
                None => break,
            }
        };
    }
    loop {''',
  new='''                    if !f(c) {
                        last_char_size = if (c as u32) < 0x80 { 1 } else { 2 };
                        break;
                    }
                }
                None => break,
            }
        };
    }
    loop {''',
  needs='a run of characters ended by a character of three or four bytes',
  breaks='the range ends inside that character (or panics)',
  demo='''use combine::{*, parser::range::take_while};
fn main() {
    assert_eq!(take_while(|c: char| c == 'a').parse("aa\\u{20ac}b"), Ok(("aa", "\\u{20ac}b")));
    assert_eq!(take_while(|c: char| c == 'a').parse("aa\\u{e9}b"), Ok(("aa", "\\u{e9}b")));
}'''),
 dict(id='c10-partial-state', property='C10', file='src/stream/state.rs',
  old='''    fn is_partial(&self) -> bool {
        self.stream.is_partial()
    }''', new='''    fn is_partial(&self) -> bool {
        false
    }''',
  needs='partial input in a stream with user state', breaks='such a stream always counts as complete, so parsers answer where they should wait',
  demo='''use combine::{*, parser::char::digit, stream::{state, PartialStream, decode, easy}};
fn main() {
    let mut s = state::Stream { stream: easy::Stream(PartialStream("12")), state: 0 };
    let mut st = Default::default();
    let r = decode(many1::<String, _, _>(digit()), &mut s, &mut st).unwrap();
    assert_eq!(r.0, None);
}'''),
 dict(id='c17-boundary-eoi', property='C17', file='src/error.rs',
  old='''            StringStreamError::Eoi => return T::end_of_input(),
        };
        T::unexpected_static_message(msg)''',
  new='''            StringStreamError::Eoi => "end of input",
        };
        T::unexpected_static_message(msg)''',
  needs='a string stream whose errors are converted to another error type without details', breaks='end of input is not recognised after the conversion',
  demo='''use combine::{error::{StreamError, StringStreamError, UnexpectedParse}};
fn main() {
    let e: UnexpectedParse = StreamError::<char, &str>::into_other(StringStreamError::Eoi);
    assert!(StreamError::<char, &str>::is_unexpected_end_of_input(&e));
}'''),
 dict(id='c17-add-forgets-eoi', property='C17', file='src/error.rs',
  old='''        *self = match (*self, err) {
            (StringStreamError::Eoi, _) => StringStreamError::Eoi,
            (_, err) => err,
        };''',
  new='''        *self = match (*self, err) {
            (StringStreamError::Eoi, StringStreamError::Eoi) => StringStreamError::Eoi,
            (_, err) => err,
        };''',
  needs='decode_tokio on a plain string at its end, or a failure whose expectations are added after the end of input',
  breaks='the end of the input is forgotten when an expectation is added',
  demo='''use combine::{*, parser::char::char, stream::decode_tokio};
fn main() {
    let mut s = "";
    assert_eq!(decode_tokio(char('a'), &mut s, &mut Default::default()), Ok((None, 0)));
}'''),
]
