U = 'use combine::*;\n'
DEC = '''
use combine::{*, stream::{PartialStream, decode, easy}, parser::{char::*, repeat::*, token::*, choice::*, combinator::*}};
type S<'a> = easy::Stream<MP<'a>>;
use combine::stream::MaybePartialStream;
type MP<'a> = MaybePartialStream<&'a str>;
'''
BUGS = [
 dict(id='c04-nfb-reset', property='C04', file='src/parser/combinator.rs',
  old='''        ctry!(input.reset(checkpoint).committed());
        match result {
            CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),''',
  new='''        match result {
            CommitOk(_) | PeekOk(_) => {
                ctry!(input.reset(checkpoint).committed());
                PeekErr(Input::Error::empty(input.position()).into())
            }''',
  needs='an inner parser of not_followed_by which fails after it has consumed input, on complete input',
  breaks='not_followed_by succeeds but leaves the input behind what its parser had consumed before failing',
  demo='''use combine::{*, parser::char::char};
fn main() {
    // `ab` does not follow (it is `ac`), so nothing is consumed and the whole of `ac` is left
    let mut p = not_followed_by((char('a'), char('b')).map(|_| "ab")).with(many::<String, _, _>(any()));
    assert_eq!(p.parse("ac"), Ok(("ac".to_string(), "")));
    assert_eq!(p.parse("b"), Ok(("b".to_string(), "")));
    assert!(p.parse("ab").is_err());
}'''),
 dict(id='c05-then-partial-commit', property='C05', file='src/parser/sequence.rs',
  old='''                let (committed, _) = n_parser_cache.take().unwrap();
                if committed {
                    CommitOk(x)
                } else {
                    PeekOk(x)
                }''',
  new='''                *n_parser_cache = None;
                PeekOk(x)''',
  needs='then_partial whose first parser consumed input and whose second succeeds without consuming, followed by a failure inside a choice',
  breaks='the commitment of the first parser of then_partial is forgotten, so a choice backtracks over consumed input',
  demo='''use combine::{*, parser::char::char};
fn main() {
    let a = char('a').then_partial(|c| value(*c)).skip(char('b'));
    let mut p = a.or(char('a').skip(char('c')));
    // the first alternative has consumed `a` when it fails: the second must not be tried
    assert!(p.parse("ac").is_err());
    assert_eq!(p.parse("ab"), Ok(('a', "")));
}'''),
 dict(id='c06-iter-fail-commit', property='C06', file='src/parser/repeat.rs',
  old='''                e = e.merge(err);
                if self.committed {
                    CommitErr(e)
                } else {
                    PeekErr(e.into())
                }''',
  new='''                e = e.merge(err);
                PeekErr(e.into())''',
  needs='count_min_max which got some, but fewer than min, elements before a failure that consumed nothing, inside a choice or optional',
  breaks='count_min_max fails as if it had consumed nothing although it consumed elements',
  demo='''use combine::{*, parser::char::char, parser::repeat::count_min_max};
fn main() {
    let mut p = optional(count_min_max::<String, _, _>(2, 3, char('a'))).skip(many::<String, _, _>(any()));
    // one `a` was consumed before the failure: optional must fail
    assert!(p.parse("ab").is_err());
    assert_eq!(p.parse("aab").map(|x| x.0), Ok(Some("aa".to_string())));
    assert_eq!(p.parse("b").map(|x| x.0), Ok(None));
}'''),
 dict(id='c06-chainl1-merge', property='C06', file='src/parser/repeat.rs',
  old='''                    l = op(l, r);
                    committed = committed.merge(rest);
                    mode.set_first();''',
  new='''                    l = op(l, r);
                    mode.set_first();''',
  needs='chainl1 whose first operand succeeds without consuming and whose operators and later operands consume, inside a choice',
  breaks='what operators and later operands of chainl1 consumed does not count as consumed',
  demo='''use combine::{*, parser::char::{char, digit}, parser::repeat::chainl1};
fn main() {
    let num = || optional(digit()).map(|c| c.map_or(0, |c| c.to_digit(10).unwrap()));
    let op = || char('+').map(|_| |a: u32, b: u32| a + b);
    let mut p = chainl1(num(), op()).skip(char(';')).or(many::<String, _, _>(any()).map(|_| 99));
    assert_eq!(p.parse("+1;"), Ok((1, "")));
    // `+1` was consumed: the second alternative must not be tried
    assert!(p.parse("+1!").is_err());
    assert_eq!(p.parse("!"), Ok((99, "")));
}'''),
 dict(id='c07-seq-offset', property='C07', file='src/parser/sequence.rs',
  old='''                        state.offset = state.offset.saturating_add($id.parser_count().0);''',
  new='''                        state.offset = state.offset.saturating_add(1);''',
  needs='a sequence with a nested sequence that succeeds without consuming before a later part fails',
  breaks='the expected set lacks what the parser that failed would have accepted',
  demo='''use combine::{*, parser::char::char, stream::easy};
fn main() {
    let mut p = (optional(char('z')), (optional(char('x')), optional(char('y'))), char('a'));
    let e = p.easy_parse("!").unwrap_err();
    for c in ['z', 'x', 'y', 'a'] {
        assert!(e.errors.contains(&easy::Error::Expected(easy::Info::Token(c))), "{} is missing: {:?}", c, e.errors);
    }
}'''),
 dict(id='c01-sep-end-by1-commit', property='C01', file='src/parser/repeat.rs',
  old='''            // Parse elements until `self.parser` returns `None`
            elements.extend(iter.by_ref().scan((), |_, x| x));

            if iter.committed {
                *parsed_one = Some(Commit::Commit(()));
            }
''',
  new='''            // Parse elements until `self.parser` returns `None`
            elements.extend(iter.by_ref().scan((), |_, x| x));
''',
  needs='sep_end_by1 whose first element was empty, which ran out of input after it consumed separators, resumed, then ends, in a repetition whose next part fails',
  breaks='a resumed sep_end_by1 forgets that it had consumed input, so an enclosing repetition ends successfully instead of failing',
  demo='''use combine::{*, stream::{decode, easy, MaybePartialStream}, parser::{char::char, repeat::sep_end_by1}};
fn run(cuts: &[usize], text: &str) -> Result<Vec<usize>, String> {
    let mut p = many::<Vec<_>, _, _>(
        (sep_end_by1::<Vec<_>, _, _, _>(optional(char('a')), char(';')), char('!')).map(|(v, _)| v.len()),
    ).skip(any());
    let mut state = Default::default();
    let mut at = 0;
    for (i, &n) in cuts.iter().enumerate() {
        let mut s = easy::Stream(MaybePartialStream(&text[at..n], i + 1 < cuts.len()));
        match decode(&mut p, &mut s, &mut state) {
            Ok((Some(v), _)) => return Ok(v),
            Ok((None, k)) => at += k,
            Err(e) => return Err(format!("{:?}", e.errors)),
        }
    }
    Err("more".into())
}
fn main() {
    let text = ";a?";
    let whole = run(&[3], text).is_ok();
    for cuts in [&[0, 3][..], &[1, 3], &[2, 3], &[1, 2, 3], &[0, 1, 2, 3]] {
        assert_eq!(run(cuts, text).is_ok(), whole, "cut at {:?}: {:?}", cuts, run(cuts, text));
    }
}'''),
 dict(id='c14-error-eof', property='C14', file='src/stream/decoder.rs',
  old='''        if self.buffer.extend_buf_sync(&mut reader)? == 0 {
            self.end_of_input = true;
        }

        Ok(())''',
  new='''        let copied = self.buffer.extend_buf_sync(&mut reader);
        if !matches!(copied, Ok(n) if n > 0) {
            self.end_of_input = true;
        }

        copied.map(|_| ())''',
  needs='a read error in the middle of a message, after which decoding is continued',
  breaks='after a read error the decoder believes that the input has ended, and a message is cut short',
  demo='''use combine::{*, parser::{byte::byte, range::take_while1}, stream::{Decoder, easy}};
use std::io;
struct R(Vec<Option<&'static [u8]>>);
impl io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Ok(0) }
        match self.0.remove(0) {
            None => Err(io::Error::new(io::ErrorKind::WouldBlock, "later")),
            Some(x) => { b[..x.len()].copy_from_slice(x); Ok(x.len()) }
        }
    }
}
fn main() {
    let mut r = R(vec![Some(b"ab"), None, Some(b"cd;")]);
    let mut d = Decoder::<_, stream::PointerOffset<[u8]>>::new();
    let mut got = None;
    for _ in 0..3 {
        let x = combine::decode!(d, r, take_while1(|b: u8| b != b';').map(|s: &[u8]| s.to_vec()).skip(byte(b';')),
            |input, _pos| easy::Stream::from(input));
        match x {
            Ok(v) => { got = Some(v); break }
            Err(stream::decoder::Error::Io { .. }) => {}
            Err(_) => panic!("parse error"),
        }
    }
    assert_eq!(got.as_deref(), Some(&b"abcd"[..]));
}'''),
]
