H = '''use combine::*;
'''
BUGS = [
 dict(id='c02-read-room', property='C02', file='src/stream/buf_reader.rs',
  old='''        let initial_size = bs.len().min(size);
        let bs = &mut bs[..initial_size];''',
  new='''        let initial_size = bs.len().min(size - filled.min(size));
        let bs = &mut bs[..initial_size];''',
  extra=[('src/stream/buf_reader.rs', '''    // Copy of tokio's poll_read_buf method (but it has to force initialize the buffer)
    let n = {
        let bs = buf.spare_capacity_mut();''', '''    let filled = buf.len();

    // Copy of tokio's poll_read_buf method (but it has to force initialize the buffer)
    let n = {
        let bs = buf.spare_capacity_mut();''')],
  needs='more than 8 KB of unconsumed input behind a synchronous decoder (one long message without a point where its parser consumes a part)',
  breaks='the read gets no room, its zero bytes are taken for the end of the input and the message is cut off',
  demo='''use combine::{*, parser::range::take, stream::decoder::Decoder};
fn main() {
    let data: Vec<u8> = (0..20000u32).map(|i| (i % 251) as u8).collect();
    let mut read = &data[..];
    let mut d: Decoder<(), usize> = Decoder::new();
    let _ = &mut d;
    let mut d = Decoder::new();
    let got = decode!(d, read, take(15000).map(|x: &[u8]| x.to_vec()), |input, _p| combine::easy::Stream::from(input));
    match got { Ok(v) => assert_eq!(v, &data[..15000]), Err(_) => panic!("cut off") }
}'''),
 dict(id='c08-dedup-tail', property='C08', file='src/stream/easy.rs',
  old='''                for message in other.errors.drain(..) {
                    self.add_error(message);
                }''',
  new='''                let known = self.errors.len();
                for message in other.errors.drain(..) {
                    // `other` holds no duplicates itself
                    if self.errors[..known].iter().all(|err| *err != message) {
                        self.errors.push(message);
                    }
                }''',
  needs='an error made by from_errors (or from a choice of labels) which holds the same item twice, merged with one at the same place',
  breaks='the duplicate survives the merge',
  demo='''use combine::easy::{Error, Errors};
fn main() {
    let a: Errors<char, &str, usize> = Errors::from_errors(1, vec![Error::Unexpected('x'.into())]);
    let b = Errors::from_errors(1, vec![Error::Expected('y'.into()), Error::Expected('y'.into())]);
    let m = a.merge(b);
    assert_eq!(m.errors, vec![Error::Unexpected('x'.into()), Error::Expected('y'.into())]);
}'''),
 dict(id='c08-owned-eoi', property='C08', file='src/stream/easy.rs',
  old='''            (&Info::Static(l), &Info::Owned(ref r)) => l == r,
            (&Info::Owned(ref l), &Info::Static(r)) => l == r,''',
  new='''            (&Info::Static(l), &Info::Owned(ref r)) | (&Info::Owned(ref r), &Info::Static(l)) => {
                l.eq_ignore_ascii_case(r)
            }''',
  needs='two messages that differ only in case, one static and one formatted',
  breaks='the second is taken for a repetition and dropped',
  demo='''use combine::easy::{Error, Errors};
fn main() {
    let mut a: Errors<char, &str, usize> = Errors::empty(0);
    a.add_error(Error::Expected("if".into()));
    a.add_error(Error::Expected(String::from("IF").into()));
    assert_eq!(a.errors.len(), 2);
}'''),
 dict(id='c09-expected-start', property='C09', file='src/stream/easy.rs',
  old='''        let start = self_.error.errors.len();
        f(self_);''',
  new='''        let start = self_
            .error
            .errors
            .iter()
            .filter(|e| matches!(e, Error::Expected(_)))
            .count();
        f(self_);''',
  needs='a labelled parser whose error already holds expectations of the parsers before it behind other items',
  breaks='the label also replaces expectations of its neighbours',
  demo='''use combine::{*, parser::char::{char, digit}};
fn main() {
    let mut p = (optional(char('a')), optional(char('b')), digit().expected("number"));
    let e = p.easy_parse("x").unwrap_err();
    let ex: Vec<_> = e.errors.iter().filter(|e| matches!(e, easy::Error::Expected(_))).collect();
    assert_eq!(ex.len(), 3, "{:?}", ex);
}'''),
 dict(id='c11-capacity', property='C11', file='src/stream/buffered.rs',
  old='''            if self.buffer.len() == self.buffer.capacity() {
                self.buffer.pop_front();
            }
            self.buffer.push_back((token.clone(), position));''',
  new='''            self.buffer.push_back((token.clone(), position));
            if self.buffer.len() == self.buffer.capacity() {
                self.buffer.pop_front();
            }''',
  needs='backtracking over exactly the whole lookahead',
  breaks='one token fewer than the lookahead can be given again',
  demo='''use combine::{*, stream::{buffered, position, IteratorStream}};
use combine::stream::{ResetStream, StreamOnce};
fn main() {
    for la in [4usize, 8, 16, 3, 5] {
        let mut s = buffered::Stream::new(position::Stream::new(IteratorStream::new("abcdefghijklmnopqrstuvwxyz".chars())), la);
        for _ in 0..6 { s.uncons().unwrap(); }
        let c = s.checkpoint();
        for _ in 0..la { s.uncons().unwrap(); }
        s.reset(c).unwrap();
        assert_eq!(s.uncons(), Ok('g'));
    }
}'''),
 dict(id='c15-memslice-skip', property='C15', file='src/parser/byte.rs',
  old='''    for i in memchr::memchr_iter(prefix, haystack) {
        if haystack[i + 1..].starts_with(suffix) {
            return Some(i);
        }
    }
    None''',
  new='''    let mut from = 0;
    for i in memchr::memchr_iter(prefix, haystack) {
        if i < from {
            continue;
        }
        let found = haystack[i + 1..]
            .iter()
            .zip(suffix)
            .take_while(|(l, r)| l == r)
            .count();
        if found == suffix.len() {
            return Some(i);
        }
        // What has been compared needs not be looked at again
        from = i + 1 + found;
    }
    None''',
  needs='a needle with a repeated beginning whose first occurrence overlaps a partial one (aab in aaab)',
  breaks='that occurrence is skipped',
  demo='''use combine::{*, parser::byte::take_until_bytes};
fn main() {
    assert_eq!(take_until_bytes(&b"\\r\\n\\r\\n"[..]).parse(&b"x\\r\\n\\r\\n"[..]).map(|x| x.0), Ok(&b"x"[..]));
    assert_eq!(take_until_bytes(&b"aab"[..]).parse(&b"xaaab"[..]).map(|x| x.0), Ok(&b"xa"[..]));
}'''),
 dict(id='c15-needle-keep', property='C15', file='src/parser/byte.rs',
  old='''            None => TakeRange::NotFound(haystack.len().saturating_sub(needle.len() - 1)),''',
  new='''            None => TakeRange::NotFound(haystack.len().saturating_sub(needle.len() / 2)),''',
  needs='a needle of four or more bytes cut in its second half by the end of a piece',
  breaks='the start of the needle is skipped and the needle is not found',
  demo='''use combine::{*, parser::byte::take_until_bytes, stream::PartialStream, stream::MaybePartialStream};
fn main() {
    let mut state = Default::default();
    let mut p = take_until_bytes(&b"----"[..]).map(|x: &[u8]| x.to_vec());
    let all = b"ab----c";
    for n in 0..=all.len() {
        let mut s = MaybePartialStream(&all[..n], n < all.len());
        match p.parse_with_state(&mut s, &mut state) {
            Ok(v) => { assert_eq!(v, b"ab"); return; }
            Err(_) => assert!(n < 6, "not found"),
        }
    }
    let _ = PartialStream(&b""[..]);
}'''),
 dict(id='c18-lazy-committed-error', property='C18', file='src/parser/combinator.rs',
  old='''    fn add_committed_expected_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
        (self.0)().add_committed_expected_error(errors);
    }
}

/// Constructs the parser lazily''',
  new='''}

/// Constructs the parser lazily''',
  needs='a lazy repetition or optional at the start of a sequence whose next parser fails after it consumed',
  breaks='what could have continued the lazy parser is not among the expectations',
  demo='''use combine::{*, parser::char::{char, digit}};
fn main() {
    let mut a = (many1::<String, _, _>(digit()), char(';'));
    let mut b = (combinator::lazy(|| many1::<String, _, _>(digit())), char(';'));
    assert_eq!(a.easy_parse("12x").map_err(|e| e.errors), b.easy_parse("12x").map_err(|e| e.errors));
}
mod combinator { pub use combine::parser::combinator::*; }'''),
 dict(id='c19-iter-peek-reset', property='C19', file='src/parser/repeat.rs',
  old='''            PeekErr(e) => {
                self.state = match self.input.reset(before) {
                    Err(err) => State::CommitErr(err),
                    Ok(_) => State::PeekErr(e.error),
                };
                None
            }''',
  new='''            PeekErr(e) => {
                if self.committed {
                    self.state = State::PeekErr(e.error);
                    if let Err(err) = self.input.reset(before) {
                        self.state = State::CommitErr(err);
                    }
                } else {
                    self.state = State::PeekErr(e.error);
                }
                None
            }''',
  needs='a repetition whose first element refuses a token it has looked at (no element before it)',
  breaks='the input is left behind that token',
  demo='''use combine::{*, parser::char::digit};
fn main() {
    assert_eq!(many::<String, _, _>(digit()).parse("a1"), Ok((String::new(), "a1")));
    let mut input = "a1";
    let mut p = digit();
    let mut it = p.by_ref().iter(&mut input);
    assert_eq!(it.next(), None);
    drop(it);
    assert_eq!(input, "a1");
}'''),
 dict(id='c20-hex', property='C20', file='src/parser/char.rs',
  old='''    satisfy(|ch: char| ch.is_digit(0x10)).expected("hexadecimal digit")''',
  new='''    satisfy(|ch: char| (ch as u8).is_ascii_hexdigit()).expected("hexadecimal digit")''',
  needs='a character above U+00FF whose low byte is the code of a hexadecimal digit (U+0130, U+0541)',
  breaks='it is taken for a digit',
  demo='''use combine::{*, parser::char::hex_digit};
fn main() { assert!(hex_digit().parse("\\u{0541}").is_err()); assert!(hex_digit().parse("f").is_ok()); }'''),
 dict(id='c20-tokens-eoi', property='C20', file='src/parser/token.rs',
  old=None, new=None,
  edits=[('src/parser/token.rs', '''                            CommitErr(errors)
                        } else {
                            PeekErr(<Input as StreamOnce>::Error::empty(start).into())
                        };
                    }
                    committed = true;
                }
                PeekErr(mut error) => {
                    error.error.set_position(start);
                    return if committed {
                        CommitErr(error.error)
                    } else {
                        PeekErr(error)
                    };
                }
                CommitErr(mut error) => {
                    error.set_position(start);
                    return CommitErr(error);
                }
            }
        }
        if committed {
            CommitOk(self.tokens.clone())
        } else {
            PeekOk(self.tokens.clone())
        }
    }
}''', '''                            CommitErr(errors)
                        } else {
                            PeekErr(<Input as StreamOnce>::Error::empty(start).into())
                        };
                    }
                    committed = true;
                }
                PeekErr(mut error) => {
                    error.error.set_position(start);
                    return PeekErr(error);
                }
                CommitErr(mut error) => {
                    error.set_position(start);
                    return CommitErr(error);
                }
            }
        }
        if committed {
            CommitOk(self.tokens.clone())
        } else {
            PeekOk(self.tokens.clone())
        }
    }
}''')],
  needs='tokens_cmp (string_cmp, bytes_cmp) on a complete input which ends inside the sequence',
  breaks='the failure counts as not having consumed, so a choice tries its next alternative',
  demo='''use combine::{*, parser::char::{string, string_cmp}};
fn main() {
    let eq = |l: char, r: char| l == r;
    let mut p = string_cmp("abc", eq).or(string("ab"));
    assert!(p.parse("ab").is_err());
    let mut q = tokens_cmp("abc".chars(), eq).map(|_| 1).or(any().map(|_| 2));
    assert!(q.parse("ab").is_err());
}'''),
 dict(id='c21-captures-end', property='C21', file='src/parser/regex.rs',
  old=None, new=None,
  edits=[('src/parser/regex.rs', '''            let mut end = 0;
            let value = regex::bytes::Regex::captures_iter(self, range)
                .map(|captures| {
                    let mut captures_iter = captures.iter();
                    // The first group is the match on the entire regex
                    let first_match = captures_iter.next().unwrap().unwrap();
                    end = first_match.end();''', '''            let mut end = 0;
            let value = regex::bytes::Regex::captures_iter(self, range)
                .map(|captures| {
                    end = captures.iter().flatten().last().map_or(0, |m| m.end());
                    let mut captures_iter = captures.iter();
                    // The first group is the match on the entire regex
                    let first_match = captures_iter.next().unwrap().unwrap();''')],
  needs='a byte expression in which something follows the last group',
  breaks='the parser stops at the end of the last group',
  demo='''use combine::{*, parser::regex::captures};
fn main() {
    let re = regex::bytes::Regex::new("(a)b").unwrap();
    let r: Result<(Vec<&[u8]>, &[u8]), _> = captures(&re).parse(&b"xabc"[..]);
    assert_eq!(r.unwrap().1, &b"c"[..]);
}'''),
 dict(id='c02-position-on-message', property='C02', edits=[('src/stream/mod.rs', '''                        let result = $crate::stream::decode($parser, &mut stream, state);
                        *position = $crate::stream::Positioned::position(&stream);
                        $crate::stream::call_with(stream, $post_decode);
                        match result {
                            Ok(x) => x,
                            Err(err) => break 'outer Err($crate::stream::decoder::Error::Parse(err)),
                        }''', '''                        let result = $crate::stream::decode($parser, &mut stream, state);
                        if !matches!(result, Ok((None, _))) {
                            // Nothing to report until a message (or an error) has been found
                            *position = $crate::stream::Positioned::position(&stream);
                        }
                        $crate::stream::call_with(stream, $post_decode);
                        match result {
                            Ok(x) => x,
                            Err(err) => break 'outer Err($crate::stream::decoder::Error::Parse(err)),
                        }''')],
  needs='a futures decoder with a positioned stream and a message which arrives in two reads, the first of which its parser consumes',
  breaks='the part consumed before the message was complete is not counted, so every later position is behind',
  demo='''use combine::{*, parser::byte::byte, stream::{decoder::Decoder, position}};
use std::{pin::Pin, task::{Context, Poll}, io};
struct R(Vec<Vec<u8>>);
impl futures_03_dep::io::AsyncRead for R {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.0.is_empty() { return Poll::Ready(Ok(0)); }
        let x = self.0.remove(0);
        b[..x.len()].copy_from_slice(&x);
        Poll::Ready(Ok(x.len()))
    }
}
fn main() {
    futures_03_dep::executor::block_on(async {
        let mut read = R(vec![b"aaa".to_vec(), b"a;aa;".to_vec()]);
        let mut d = Decoder::new();
        let r = decode_futures_03!(d, read, (skip_many1(byte(b'a')), byte(b';')).map(|_| ()),
            |input, p: position::SourcePosition| combine::easy::Stream(position::Stream::with_positioner(input, p)));
        assert!(r.is_ok());
        assert_eq!(*d.position(), position::SourcePosition { line: 1, column: 6 });
    });
}'''),
 dict(id='c01-choice-sticks', property='C01', file='src/parser/choice.rs',
  old='''                if $input.position() != $before_position {
                    *$state = self::$partial_state::$head(state);
                }''',
  new='''                if $input.is_partial() {
                    *$state = self::$partial_state::$head(state);
                }''',
  needs='a choice whose first alternative is an attempt that runs out of input before it can decide, and input that then fits a later alternative',
  breaks='only that alternative is tried when the parse is resumed',
  demo='''use combine::{*, parser::char::string, stream::MaybePartialStream};
fn main() {
    let mut p = choice((attempt(string("abc")), attempt(string("abd")), string("x")));
    let mut st = Default::default();
    assert!(p.parse_with_state(&mut MaybePartialStream("ab", true), &mut st).is_err());
    assert_eq!(p.parse_with_state(&mut MaybePartialStream("abd", true), &mut st), Ok("abd"));
}'''),
 dict(id='c03-slice-lookahead', property='C03', file='src/parser/choice.rs',
  old='''        match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
            committed_err @ CommitErr(_) => {''',
  new='''        let result = match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
            // The alternative gave back everything it had taken
            CommitErr(err) if !input.is_partial() && input.position() == before_position => {
                PeekErr(err.into())
            }
            result => result,
        };
        match result {
            committed_err @ CommitErr(_) => {''',
  needs='an array of alternatives one of which fails committed with the input at its start (a look_ahead which failed after consuming)',
  breaks='the next alternative is tried after a committed failure',
  demo='''use combine::{*, parser::char::string};
fn main() {
    let mut p = choice([look_ahead(string("ab")), look_ahead(string("ac"))]);
    assert!(p.parse("ac").is_err());
    let mut q = choice((look_ahead(string("ab")), look_ahead(string("ac"))));
    assert!(q.parse("ac").is_err());
}'''),
 dict(id='c16-sep-by-rest', property='C16', edits=[('src/parser/repeat.rs', '''            let rest = (&mut self.separator).with(&mut self.parser);
            let mut iter = Iter::new(rest, mode, input, child_state);

            elements.extend(iter.by_ref());

            if iter.committed {
                *parsed_one = Some(Commit::Commit(()));
            }

            iter.into_result_fast(elements).map(|x| {
                *parsed_one = None;
                x
            })''', '''            let rest = (&mut self.separator).with(&mut self.parser);
            let mut iter = Iter::new(rest, mode, input, child_state);

            elements.extend(iter.by_ref());

            if iter.committed {
                *parsed_one = Some(Commit::Commit(()));
            }

            let result = iter.into_result_fast(elements);
            if let CommitOk(_) = result {
                *parsed_one = None;
            }
            result''')],
  needs='a separated list of one element, whose state is used again for the next list',
  breaks='the next list is taken to have its first element already',
  demo='''use combine::{*, parser::char::{char, digit}, stream::MaybePartialStream};
fn main() {
    let mut p = sep_by1::<Vec<char>, _, _, _>(digit(), char(','));
    let mut st = Default::default();
    assert_eq!(p.parse_with_state(&mut MaybePartialStream("1;", true), &mut st), Ok(vec!['1']));
    assert_eq!(p.parse_with_state(&mut MaybePartialStream("2,3;", true), &mut st), Ok(vec!['2', '3']));
}'''),
 dict(id='c16-take-while-distance', property='C16', edits=[('src/parser/range.rs', '''        let distance = input.distance(&before);
        ctry!(input.reset(before).committed());
        take(distance).parse_lazy(input).map(|range| {
            *distance_state = 0;
            range
        })
    }
}''', '''        let distance = input.distance(&before);
        ctry!(input.reset(before).committed());
        match take(distance).parse_lazy(input) {
            CommitOk(range) if distance != *distance_state => {
                *distance_state = 0;
                CommitOk(range)
            }
            result => result,
        }
    }
}''')],
  needs='a take_while resumed with input that adds nothing to it, then used for a next message',
  breaks='the next message is taken to begin with as much as the one before (or the parser panics)',
  demo='''use combine::{*, parser::range::take_while, stream::MaybePartialStream};
fn main() {
    let mut p = take_while(|c: char| c == 'a');
    let mut st = Default::default();
    assert!(p.parse_with_state(&mut MaybePartialStream("aa", true), &mut st).is_err());
    assert_eq!(p.parse_with_state(&mut MaybePartialStream("aa;", true), &mut st), Ok("aa"));
    assert_eq!(p.parse_with_state(&mut MaybePartialStream(";aaa", true), &mut st), Ok(""));
}'''),
 dict(id='c18-either-right', property='C18', file='src/parser/combinator.rs',
  old='''            Either::Right(ref mut x) => x.add_error(error),''',
  new='''            Either::Right(ref mut x) => x.add_committed_expected_error(error),''',
  needs='an Either::Right that fails without consuming at the start of a parse or choice',
  breaks='its expectations are missing',
  demo='''use combine::{*, parser::char::char, parser::combinator::Either};
fn main() {
    let mut p = if std::env::args().count() > 5 { Either::Left(char('a')) } else { Either::Right(char('b')) };
    assert_eq!(p.easy_parse("x").map_err(|e| e.errors), char('b').easy_parse("x").map_err(|e| e.errors));
}'''),
 dict(id='c19-into-result', property='C19', file='src/parser/repeat.rs',
  old='''    fn into_result_<O>(self, value: O) -> ParseResult<O, Input::Error> {
        match self.state {
            State::Ok | State::PeekErr(_) => {
                if self.committed {''',
  new='''    fn into_result_<O>(self, value: O) -> ParseResult<O, Input::Error> {
        match self.state {
            State::Ok | State::PeekErr(_) => {
                if self.committed && !matches!(self.state, State::Ok) {''',
  needs='an iterator that is asked for its result before it has stopped by itself (after take(n))',
  breaks='what was consumed does not count as consumed',
  demo='''use combine::{*, parser::char::digit};
fn main() {
    let mut input = "123";
    let mut p = digit();
    let mut it = p.by_ref().iter(&mut input);
    let v: Vec<char> = it.by_ref().take(2).collect();
    assert!(matches!(it.into_result(v), Ok((_, error::Commit::Commit(())))));
}'''),
]
BUGS = [b for b in BUGS if b['needs'] not in ('-', 'never', 'never (equivalent)') and b['demo'].strip() != 'fn main() {}']
for b in BUGS:
    if b.get('extra'):
        b['edits'] = [(b['file'], b['old'], b['new'])] + b['extra']
