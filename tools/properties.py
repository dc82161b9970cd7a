SAMPLED = ('Model conformance on seeded random and exhaustively enumerated small cases: strong evidence inside those bounds, not a proof. '
           'Trusts TLC, the projection in harness/src/obs.rs and that short inputs and small grammars are representative.')

prop('C01', 'Incremental parsing does not depend on how the input was cut into pieces',
     'Feeding an input to a parser piece by piece, resuming with the saved state each time more input arrived, gives the same value, the same '
     'total consumption and the same success or failure as giving it the whole input at once, for every way of cutting the input, including empty and '
     'one-token pieces. While more input may still decide the outcome the parser asks for more instead of failing or answering.',
     ['schedules', 'inputs', 'programs'],
     'every grammar built from the library, every input, every sequence of cuts and of announcing the end of input',
     'Unit tests resume a handful of fixed grammars at a handful of cuts; resumption points multiply with grammar nesting and cut position.',
     ['src/parser/mod.rs', 'src/parser/repeat.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/combinator.rs', 'src/parser/range.rs', 'src/stream/mod.rs'],
     [('partial state of every parser', 'src/parser/*.rs: type PartialState and parse_mode_impl'),
      ('end-of-input classification', 'src/stream/mod.rs: uncons, decode; src/parser/mod.rs: parse_with_state')],
     SAMPLED,
     state=[('partial state', 'what a parser saved to resume from', 'Parser::PartialState'), ('first/resume mode', 'whether the call starts afresh', 'src/parser/mod.rs: FirstMode, PartialMode')],
     observe=['stream::decode result per delivery'])

prop('C02', 'Decoders hand every byte of the reader to exactly one message, in order',
     'A decoding loop over any reader delivers the messages the parser finds in the byte sequence, in order, whatever sizes the reads have and however the buffer grows; '
     'no byte is lost, duplicated or reordered, and what was read but not consumed stays available. '
     'After each message the reported position is the line and column behind everything consumed so far.',
     ['schedules', 'inputs', 'programs', 'histories'],
     'every input, every sequence of read sizes, every grammar, sync and async decoders, internal and external buffers',
     'The tests decode a few fixed formats; buffer refill, advance and multi-message leftovers depend on the relation of read sizes to message borders.',
     ['src/stream/decoder.rs', 'src/stream/buf_reader.rs', 'src/stream/mod.rs', 'src/lib.rs'],
     [('decode loop macros', 'src/stream/mod.rs: decode!, decode_futures_03!, decode_tokio*!'), ('buffer growth and advance', 'src/stream/buf_reader.rs: Buffer, BufReader, Bufferless'),
      ('decoder position and end-of-input flag', 'src/stream/decoder.rs: Decoder::advance, __before_parse')],
     SAMPLED, observe=['messages, decoder.buffer(), decoder.position() after each call'])

prop('C03', 'Choices backtrack only while no input was committed',
     'A choice tries its alternatives from the same position in order and takes the first that succeeds; once an alternative fails after having consumed input, no later one is tried '
     'and the failure is the result. An optional parser yields nothing only when its parser failed without consuming, and leaves the input where it was.',
     ['inputs', 'programs', 'configurations'],
     'every combination of alternatives (tuples, arrays, slices, macro, or, optional, nested), every input, complete or partial',
     'Commitment is decided by interplay of nested parsers; the tests cover single pairs of alternatives.',
     ['src/parser/choice.rs', 'src/error.rs'],
     [('alternatives', 'src/parser/choice.rs: Choice, Or, slice_parse_mode, tuple_choice_parser'), ('four-way results', 'src/error.rs: ParseResult, Commit')],
     SAMPLED)

prop('C04', 'attempt, look_ahead and not_followed_by control consumption exactly',
     'An attempted parser that fails never counts as having consumed input, and one that succeeds behaves as without the attempt. A lookahead that succeeds leaves the input at its start and yields the value; '
     'a negative lookahead succeeds exactly if its parser fails, never consumes, and yields no value.',
     ['inputs', 'programs', 'schedules'],
     'every inner grammar, every input, complete or partial, nested in any context',
     'Depends on what the inner parser did before failing and on nesting; tests sample a few literals.',
     ['src/parser/combinator.rs'],
     [('backtracking', 'src/parser/combinator.rs: Try, LookAhead, NotFollowedBy')],
     SAMPLED)

prop('C05', 'Sequencing runs parsers in order, commits as their parts do and maps values',
     'A sequence succeeds exactly if its parts succeed one after another, each starting where the previous one ended, and its value holds the parts in order; it has consumed input exactly if a part has. '
     'Dependent sequencing chooses the next parser from the value before; mapping changes only the value, and a failing conversion after consumed input is a committed failure.',
     ['inputs', 'programs', 'schedules'],
     'every sequence form (tuples, and/with/skip/between, struct syntax, then variants, dispatch, map variants), every input',
     'The forms share macros whose cases differ per arity and position; tests use few arities and inputs.',
     ['src/parser/sequence.rs', 'src/parser/combinator.rs', 'src/lib.rs'],
     [('tuple sequences', 'src/parser/sequence.rs: tuple_parser!'), ('dependent sequencing', 'src/parser/sequence.rs: Then, ThenPartial, ThenRef'), ('mapping', 'src/parser/combinator.rs: Map, AndThen, FlatMap, Recognize')],
     SAMPLED)

prop('C06', 'Repetition takes the longest run and stops or fails exactly where documented',
     'Repeating parsers collect every consecutive success in order, respect their minimum and maximum counts, and stop without error at the first failure that consumed nothing, leaving the input there; '
     'a failure that consumed input fails the whole. Separated, chained, terminated and escaped repetitions treat separators, operators, trailing elements and terminators as documented.',
     ['inputs', 'programs', 'schedules'],
     'every element, separator, operator and terminator grammar, all bounds, every input, complete or partial',
     'Off-by-one and commitment errors show only for particular combinations of element, separator and input end.',
     ['src/parser/repeat.rs', 'src/parser/mod.rs'],
     [('iteration', 'src/parser/mod.rs: Iter; src/parser/repeat.rs: Many, Many1, SepBy*, SepEndBy*, Chainl1, Chainr1, Count*, TakeUntil, RepeatUntil, Escaped, Iterate')],
     SAMPLED)

prop('C07', 'Errors report the furthest failure and exactly what was expected there',
     'The error of a failed parse is positioned at the furthest point where an alternative failed and lists what was found there together with what every alternative that got that far could have accepted, '
     'and nothing from alternatives that failed earlier.',
     ['inputs', 'programs'],
     'every grammar of sequences, choices and repetitions with every input, on the collecting error type',
     'The expected set is assembled across nested combinators with offset bookkeeping; tests pin a few grammars.',
     ['src/error.rs', 'src/stream/easy.rs', 'src/parser/sequence.rs', 'src/parser/choice.rs', 'src/parser/mod.rs'],
     [('offset bookkeeping', 'src/error.rs: Tracked, ErrorOffset'), ('error merging', 'src/stream/easy.rs: Errors::merge'), ('expected sets', 'Parser::add_error, add_committed_expected_error')],
     SAMPLED)

prop('C08', 'Errors and results combine lawfully and are reported completely',
     'Merging two collected errors keeps the one further on, and everything of both, once and in order, where they are equally far. Adding never loses or repeats an item; a label replaces exactly the expectations it stands for; clearing removes exactly the expectations. '
     'Types without details never forget that the input ended, and what can be carried over into another error type is. The message lists what was unexpected, all that was expected and every other message. Results of consecutive parsers combine so that one which committed stays committed.',
     ['inputs', 'histories'],
     'every history of operations on error values of every error type, every pair of results',
     'The algebra is what every combinator relies on; tests look at the final errors of a few grammars.',
     ['src/error.rs', 'src/stream/easy.rs', 'src/stream/read.rs'],
     [('collecting errors', 'src/stream/easy.rs: Errors, Error, Info, fmt_errors'), ('other error types', 'src/error.rs: UnexpectedParse, StringStreamError; src/stream/read.rs: Error'), ('results', 'src/error.rs: ParseResult, Commit')],
     'The laws are model-checked for all small errors; conformance is sampled: random histories of operations on every error type, and all pairs of results. ' + SAMPLED)

prop('C09', 'Labels replace or add to errors without changing what is parsed',
     'Labelling a parser never changes whether and what it parses. A label replaces what the labelled parser itself expected where it failed without consuming, a message is added to its errors, and silencing removes exactly the expectations of the silenced parser.',
     ['inputs', 'programs'],
     'every grammar and input, labels at any depth',
     'Label placement relative to consumed input varies with nesting; tests check few shapes.',
     ['src/parser/error.rs', 'src/error.rs', 'src/stream/easy.rs'],
     [('labels', 'src/parser/error.rs: Expected, Message, Silent'), ('replacement', 'src/stream/easy.rs: set_expected, clear_expected')],
     SAMPLED)

prop('C10', 'What is parsed does not depend on the kind of stream',
     'The same tokens give the same value, the same consumption and the same success or failure from every kind of stream: strings, slices of bytes or characters, slices of references, iterators and readers behind a buffer, '
     'and any of them with positions, spans, user state or collected errors added, complete or partial.',
     ['inputs', 'programs', 'configurations'],
     'every stream type and adapter stack, every grammar, every input, declared complete or partial',
     'Each stream type implements the token and range operations by hand; tests use a few parsers on &str.',
     ['src/stream/mod.rs', 'src/stream/position.rs', 'src/stream/easy.rs', 'src/stream/state.rs', 'src/stream/span.rs', 'src/stream/buffered.rs', 'src/stream/read.rs'],
     [('streams', 'src/stream/mod.rs: impl StreamOnce/RangeStreamOnce for &str, &[T], SliceStream, IteratorStream, PartialStream, MaybePartialStream, CompleteStream'),
      ('adapters', 'src/stream/{position,easy,state,span,buffered,read}.rs')],
     SAMPLED)

prop('C11', 'A buffered stream can go back as far as its lookahead and never lies',
     'A buffered stream over an iterator or reader gives the tokens of its source in order. Going back to a checkpoint at most the lookahead behind the furthest token read always works and replays exactly the same tokens, positions and end of input; '
     'going back further either replays them as well or reports an error, and never gives a wrong token.',
     ['inputs', 'histories', 'configurations'],
     'every source, every lookahead size, every history of reading, saving and going back',
     'Wrap-around of the window depends on the relation of lookahead, distance read and checkpoints.',
     ['src/stream/buffered.rs', 'src/stream/read.rs', 'src/stream/mod.rs'],
     [('window', 'src/stream/buffered.rs: uncons, checkpoint, reset'), ('sources', 'src/stream/read.rs, src/stream/mod.rs: IteratorStream')],
     SAMPLED, state=[('window', 'the last tokens taken from the source with their positions', 'src/stream/buffered.rs: buffer, buffer_offset, offset')])

prop('C12', 'Positions are those of the tokens consumed so far',
     'The position of a stream always is that behind the tokens consumed so far: line and column counted from one with a new line after every newline, an index of tokens, or the place in the input, however they were consumed: '
     'one by one, as ranges, or by backtracking and trying again. Errors carry the position of the token they are about.',
     ['inputs', 'programs', 'histories'],
     'every input with newlines and wide characters anywhere, every way to consume it, every positioner',
     'Positions go wrong for particular lengths of ranges and after particular backtracks; tests compare few.',
     ['src/stream/position.rs', 'src/stream/mod.rs', 'src/stream/span.rs', 'src/parser/token.rs'],
     [('positioners', 'src/stream/position.rs: SourcePosition, IndexPositioner, Positioner, RangePositioner'), ('offsets', 'src/stream/mod.rs: PointerOffset'), ('spans', 'src/stream/span.rs')],
     SAMPLED)

prop('C13', 'Ranges are exact, contiguous parts of the input itself',
     'A range parser or range operation returns exactly the consumed tokens as a slice of the original input, not a copy. Taking a number of units takes that number or nothing; taking while a predicate holds asks it once per token, in order, and stops at the first refusal or the end; '
     'the rest of the input and the distance to a checkpoint agree with what was consumed, for every run length and character width.',
     ['inputs', 'histories', 'programs'],
     'every range stream, every run length, every predicate, every mixture of characters of different width, every history of operations',
     'The loops are unrolled by eight and work on bytes of wide characters; tests use short ASCII runs.',
     ['src/stream/mod.rs', 'src/parser/range.rs', 'src/stream/position.rs', 'src/stream/easy.rs', 'src/stream/state.rs', 'src/stream/span.rs'],
     [('range operations', 'src/stream/mod.rs: RangeStreamOnce for &str, &[T], SliceStream; str_uncons_while, slice_uncons_while'), ('range parsers', 'src/parser/range.rs')],
     SAMPLED)

prop('C17', 'The error type never changes the outcome, and errors survive conversion',
     'Parsing with the plain, the collecting or any converted error type gives the same result. Errors which pass through positions, spans, buffering or another error type keep their meaning: what was unexpected and expected, and whether the end of input was the cause.',
     ['inputs', 'programs', 'configurations'],
     'every grammar, every input, every error type and stack of stream adapters',
     'The error types implement dozens of methods independently, and resumption depends on the end-of-input classification they keep.',
     ['src/error.rs', 'src/stream/easy.rs', 'src/stream/span.rs', 'src/stream/buffered.rs', 'src/stream/read.rs'],
     [('error types', 'impl ParseError/StreamError for UnexpectedParse, StringStreamError, easy::Error, easy::Errors, read::Error'), ('conversion', 'ParseError::into_other, StreamError::into_other, StreamErrorInto')],
     SAMPLED)

prop('C14', 'Read errors, blocking and cancellation never lose decoded progress',
     'When a reader fails or blocks in the middle of a message, the decoding call returns that error or can be abandoned, and a later call with the same decoder carries on as if nothing had happened: every byte read before is still used exactly once. '
     'Synchronous and asynchronous decoders give the same messages for the same bytes.',
     ['fault_sequences', 'schedules', 'inputs', 'programs'],
     'every placement of read errors, blocked reads and abandoned calls, every read size, every grammar, every decoder flavour',
     'Faults at particular offsets inside buffers are not sampled by the tests.',
     ['src/stream/decoder.rs', 'src/stream/buf_reader.rs', 'src/stream/mod.rs'],
     [('decode loops', 'src/stream/mod.rs: decode!, decode_futures_03!, decode_tokio_02!, decode_tokio_03!, decode_tokio!'), ('buffer extension', 'src/stream/buf_reader.rs: CombineSyncRead, CombineRead, extend_buf*, poll_extend_buf*')],
     SAMPLED)

prop('C16', 'A parser and its state are reusable after every completed message',
     'After a parse completed with a value the saved state is as good as new: parsing the next message with the same parser and state gives what a fresh parser and state would give, however the messages were cut and whatever earlier messages contained.',
     ['histories', 'schedules', 'inputs', 'programs'],
     'every sequence of messages decoded with one parser and one state, every cut of each',
     'Leftover state only matters for particular sequences of messages and cuts.',
     ['src/parser/mod.rs', 'src/parser/repeat.rs', 'src/parser/sequence.rs', 'src/parser/range.rs', 'src/stream/mod.rs'],
     [('state is reset on success', 'parse_mode_impl of every parser with state'), ('decode', 'src/stream/mod.rs: decode')],
     SAMPLED)

prop('C18', 'Wrappers are transparent',
     'Wrapping a parser as a function, by laziness, in a factory, behind an opaque or boxed type, by reference, in an either, with type-erased or no partial state, or through the parser-defining macro changes neither its result, nor its errors, nor how it resumes.',
     ['programs', 'inputs', 'schedules'],
     'every grammar under every wrapper and nesting of wrappers, every input and cut',
     'Wrappers forward many entry points; the tests only use some of them in some modes.',
     ['src/parser/mod.rs', 'src/parser/combinator.rs', 'src/parser/function.rs'],
     [('forwarding', 'src/parser/mod.rs: forward_parser!, impl Parser for &mut/Box/Either'), ('erased state', 'src/parser/combinator.rs: AnyPartialState, AnySendPartialState, AnySendSyncPartialState, NoPartial, Lazy, Factory, Opaque'), ('macros', 'src/lib.rs: parser!, opaque!')],
     SAMPLED)

prop('C15', 'Byte parsers take exactly the bytes of their number, literal or needle',
     'A number of a fixed size is exactly the bytes it is written with, in its byte order, for every bit pattern; with too few bytes it fails without taking any, or asks for more while more may come. '
     'Literal byte strings, lengths that precede their data and searches for a byte or byte string take exactly what they announce, up to the first place where the needle occurs, however the input is cut.',
     ['inputs', 'schedules', 'programs'],
     'every number format and bit pattern, every literal and needle (repeating ones too), every input and cut, in every context',
     'Bit patterns, partial matches of a needle and needles across cuts are far too many to sample by hand.',
     ['src/parser/byte.rs', 'src/parser/range.rs'],
     [('numbers', 'src/parser/byte.rs: num, integer_parser!'), ('searches', 'src/parser/byte.rs: take_until_byte*, take_until_bytes, memslice'),
      ('literals and prefixes', 'src/parser/byte.rs: bytes, bytes_cmp; src/parser/range.rs: length_prefix, take')],
     SAMPLED)

prop('C19', 'Entry points, iterators and conversions agree with the parser they run',
     'Parsing through any entry point (parse, easy_parse, with a given state, by iterating) gives what the parser gives at that place: the same value, the same rest of the input or the same error. '
     'An iterator over a parser yields each consecutive result in order, stops at the first failure, and tells afterwards whether that failure had consumed input, leaving the stream behind the last element that succeeded. Converting parsed text fails exactly where the text has no value of that type.',
     ['inputs', 'programs', 'histories'],
     'every grammar and input, every number of items taken from an iterator, every entry point',
     'Errors and commitment at the end of an iteration depend on how far the failing element got; tests iterate over plain digits.',
     ['src/parser/mod.rs', 'src/parser/repeat.rs', 'src/parser/combinator.rs', 'src/parser/error.rs', 'src/stream/easy.rs'],
     [('iterators', 'src/parser/mod.rs: Iter, Parser::iter; src/parser/repeat.rs: iterate'), ('entry points', 'src/parser/mod.rs: parse, parse_with_state, parse_stream; EasyParser'),
      ('conversion', 'src/parser/combinator.rs: from_str')],
     SAMPLED)

prop('C20', 'Token parsers take exactly the tokens of their class',
     'A parser of one token takes a token exactly if it belongs to its class or was asked for, yields that very token, and otherwise refuses it without consuming: for every byte and every Unicode character. '
     'Parsers of fixed sequences of tokens match exactly that sequence, under the given comparison, and fail with their input committed exactly if a part of it matched before.',
     ['inputs', 'programs', 'configurations'],
     'every byte and character for every class parser; every set of tokens asked for; every literal and comparison, in every context, complete or partial',
     'Tests look at a few characters; most of Unicode and of the byte range is never tried.',
     ['src/parser/char.rs', 'src/parser/byte.rs', 'src/parser/token.rs'],
     [('classes', 'src/parser/char.rs, src/parser/byte.rs: digit, space, newline, crlf, tab, upper, lower, letter, alpha_num, oct_digit, hex_digit'),
      ('given tokens', 'src/parser/token.rs: token, one_of, none_of, satisfy, satisfy_map, tokens, tokens_cmp, any, eof'), ('strings', 'src/parser/char.rs: string, string_cmp; src/parser/byte.rs: bytes')],
     'Classes are checked for every byte and every character, once; sets of tokens and literals are sampled. ' + SAMPLED)

prop('C21', 'Regular expression parsers take exactly what the expression matches',
     'The parsers search what is left of a complete input. Matching yields all of it if there is a match anywhere and consumes nothing; finding yields the first match and takes everything up to its end; finding many yields all successive matches, in order, and takes everything up to the end of the last; '
     'captures are the groups of those matches. Without a match they fail (finding many yields nothing instead) and leave the input as it was.',
     ['inputs', 'programs'],
     'every expression (alternatives, repetition, classes, anchors, groups), every text, at every position, on strings and bytes',
     'Anchoring, empty matches and positions behind consumed input combine in ways that the tests do not try.',
     ['src/parser/regex.rs'],
     [('parsers', 'src/parser/regex.rs: match_, find, find_many, captures, captures_many'), ('searching', 'src/parser/regex.rs: MatchFind, Regex')],
     SAMPLED)

prop('C22', 'The buffered reader delivers its reader\'s bytes',
     'A buffered reader delivers exactly the bytes of the reader behind it, each once and in order, however reads, filling and consuming, and decoders without a buffer of their own are mixed, and whatever the sizes asked for. '
     'What it shows as buffered is what will be delivered next; it fails, blocks or ends only where its reader does, withholds nothing that is buffered, and loses nothing then. What is written goes straight through.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'every sequence of reads, fills, consumptions, decodes and writes on every kind of reader (synchronous and the three asynchronous ones), every way in which the reader delivers, blocks and fails, every capacity',
     'The bytes depend on how requests, deliveries and the capacity line up; the tests read a few buffers to the end.',
     ['src/stream/buf_reader.rs', 'src/stream/decoder.rs'],
     [('reading', 'src/stream/buf_reader.rs: Read, BufRead, AsyncRead and AsyncBufRead for BufReader'), ('decoding', 'src/stream/buf_reader.rs: Bufferless'),
      ('writing', 'src/stream/buf_reader.rs: AsyncWrite for BufReader')],
     'The rules are checked for every use of a small reader, the code on random sequences of operations.')
