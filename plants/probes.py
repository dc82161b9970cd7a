# Bugs which the existing tests see as well: only for trying the checks (plant.py --detect).
BUGS = [
 dict(id='c09-silent-committed', property='C09', file='src/parser/error.rs',
  old='''    fn add_error(&mut self, _errors: &mut Tracked<<Input as StreamOnce>::Error>) {}

    fn add_committed_expected_error(
        &mut self,
        _errors: &mut Tracked<<Input as StreamOnce>::Error>,
    ) {
    }

    forward_parser!(Input, parser_count, 0);''',
  new='''    fn add_error(&mut self, _errors: &mut Tracked<<Input as StreamOnce>::Error>) {}

    forward_parser!(Input, parser_count add_committed_expected_error, 0);''',
  needs='a silent repetition which consumed input right before the next parser of a sequence fails',
  breaks='what a silent parser would have accepted shows in the error',
  demo='''use combine::{*, parser::char::char, stream::easy};
fn main() {
    let mut p = (many1::<String, _, _>(char(' ')).silent(), char('a'));
    let e = p.easy_parse("  b").unwrap_err();
    assert!(!e.errors.contains(&easy::Error::Expected(easy::Info::Token(' '))), "{:?}", e.errors);
    assert!(e.errors.contains(&easy::Error::Expected(easy::Info::Token('a'))), "{:?}", e.errors);
}'''),
 dict(id='c16-cmm-count', property='C16', file='src/parser/repeat.rs',
  old='''            iter.into_result_fast(elements).map(|x| {
                *count = 0;
                *committed = false;''',
  new='''            iter.into_result_fast(elements).map(|x| {
                *committed = false;''',
  needs='a second message decoded with the state that count_min_max left after the first',
  breaks='the elements of the last message count towards the bounds of the next',
  demo='''use combine::{*, stream::{decode, easy, MaybePartialStream}, parser::{char::char, repeat::count_min_max}};
fn main() {
    let mut p = count_min_max::<String, _, _>(2, 3, char('a')).skip(char(';'));
    let mut state = Default::default();
    let text = "aa;aaa;aaa;";
    let mut at = 0;
    let mut got = vec![];
    while at < text.len() {
        let mut s = easy::Stream(MaybePartialStream(&text[at..], true));
        match decode(&mut p, &mut s, &mut state) {
            Ok((Some(v), n)) => { got.push(v); at += n }
            x => panic!("{:?}", x.map_err(|e| e.errors)),
        }
    }
    assert_eq!(got, ["aa", "aaa", "aaa"]);
}'''),
 dict(id='c18-deref-count', property='C18', file='src/parser/mod.rs',
  old='''            (**self).add_committed_expected_error(error)
        }

        #[inline]
        fn parser_count(&self) -> ErrorOffset {
            (**self).parser_count()
        }
    };''',
  new='''            (**self).add_committed_expected_error(error)
        }
    };''',
  needs='a boxed (or borrowed) sequence inside a sequence that fails behind it without having consumed input',
  breaks='boxing a parser changes which expectations an error lists',
  demo='''use combine::{*, parser::char::char, stream::easy};
fn main() {
    let inner = || (optional(char('x')), optional(char('y')));
    let e1 = (inner(), char('a')).easy_parse("!").unwrap_err();
    let e2 = (inner().boxed(), char('a')).easy_parse("!").unwrap_err();
    assert_eq!(e1, e2);
    assert!(e2.errors.contains(&easy::Error::Expected(easy::Info::Token('a'))));
}'''),
 dict(id='c03-slice-peek-state', property='C03', file='src/parser/choice.rs',
  old='''            PeekErr(_) => {
                ctry!(input.reset(before).committed());
                PeekOk(None)
            }
        }
    }

    forward_parser!(Input, add_error parser_count, 0);''',
  new='''            PeekErr(_) => PeekOk(None),
        }
    }

    forward_parser!(Input, add_error parser_count, 0);''',
  needs='an optional parser that moved the input before failing without committing (an attempt, a token that does not match)',
  breaks='optional yields nothing but leaves the input moved',
  demo='''use combine::{*, parser::char::char};
fn main() {
    let mut p = (optional(attempt((char('a'), char('b')))), many::<String, _, _>(any()));
    assert_eq!(p.parse("ac"), Ok(((None, "ac".to_string()), "")));
    let mut p = (optional(char('a')), many::<String, _, _>(any()));
    assert_eq!(p.parse("bc"), Ok(((None, "bc".to_string()), "")));
}'''),
]
