//! Obligations of the type checker: each function compiles only if what its name says holds of the crate's types.
#![allow(dead_code, clippy::all)]
use conch_parser::ast::builder::*;
use conch_parser::ast::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::*;
use conch_parser::token::{Positional, Token};
use std::iter::FusedIterator;
use std::sync::Arc;

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn is_static<T: 'static>() {}
fn error<T: std::error::Error>() {}
fn eq<T: Eq>() {}
fn clone<T: Clone>() {}
fn debug<T: std::fmt::Debug>() {}
fn display<T: std::fmt::Display>() {}
fn builder<B: Builder>() {}
fn fused<T: FusedIterator>() {}
fn unwind<T: std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {}

// what the atomic builder makes can be shared between threads, whatever the words are made of
fn atomic_commands_are_send<T: Send + Sync>() { send::<AtomicTopLevelCommand<T>>() }
fn atomic_commands_are_sync<T: Send + Sync>() { sync::<AtomicTopLevelCommand<T>>() }
fn atomic_words_are_send<T: Send + Sync>() { send::<AtomicTopLevelWord<T>>() }
fn atomic_words_are_sync<T: Send + Sync>() { sync::<AtomicTopLevelWord<T>>() }
fn commands_of_the_arc_builder_are_send() { send::<<ArcBuilder as Builder>::Command>() }
fn commands_of_the_arc_builder_are_sync() { sync::<<ArcBuilder as Builder>::Command>() }
fn pipeable_commands_of_the_arc_builder_are_send_and_sync() { send::<<ArcBuilder as Builder>::PipeableCommand>(); sync::<<ArcBuilder as Builder>::PipeableCommand>() }
fn compound_commands_of_the_arc_builder_are_send_and_sync() { send::<<ArcBuilder as Builder>::CompoundCommand>(); sync::<<ArcBuilder as Builder>::CompoundCommand>() }
fn words_of_the_arc_builder_are_send_and_sync() { send::<<ArcBuilder as Builder>::Word>(); sync::<<ArcBuilder as Builder>::Word>() }
fn redirects_of_the_arc_builder_are_send_and_sync() { send::<<ArcBuilder as Builder>::Redirect>(); sync::<<ArcBuilder as Builder>::Redirect>() }
fn the_arc_builder_is_send_and_sync() { send::<ArcBuilder>(); sync::<ArcBuilder>() }
fn the_empty_builder_is_send_and_sync() { send::<EmptyBuilder>(); sync::<EmptyBuilder>() }
fn functions_of_the_atomic_ast_are_shared_by_arc(c: AtomicShellPipeableCommand<String, AtomicTopLevelWord<String>, AtomicTopLevelCommand<String>>) {
    if let PipeableCommand::FunctionDef(_, body) = c { let _: Arc<ShellCompoundCommand<String, AtomicTopLevelWord<String>, AtomicTopLevelCommand<String>>> = body; }
}

// tokens, positions and errors can cross threads and outlive what they were made from
fn tokens_are_send_and_sync() { send::<Token>(); sync::<Token>() }
fn tokens_are_static() { is_static::<Token>() }
fn positions_are_send_and_sync() { send::<SourcePos>(); sync::<SourcePos>() }
fn parse_errors_are_send<T: Send>() { send::<ParseError<T>>() }
fn parse_errors_are_sync<T: Sync>() { sync::<ParseError<T>>() }
fn parse_errors_are_static<T: 'static>() { is_static::<ParseError<T>>() }
fn parse_errors_are_errors<T: std::error::Error>() { error::<ParseError<T>>() }
fn parse_errors_of_the_default_builder_are_boxable(e: ParseError<<DefaultBuilder<String> as Builder>::Error>) -> Box<dyn std::error::Error + Send + Sync> { Box::new(e) }

// lexers and parsers follow what they are made from
fn lexers_are_send<I: Iterator<Item = char> + Send>() { send::<Lexer<I>>() }
fn lexers_are_sync<I: Iterator<Item = char> + Sync>() { sync::<Lexer<I>>() }
fn parsers_are_send<I: Iterator<Item = Token> + Send, B: Builder + Send>() { send::<Parser<I, B>>() }
fn parsers_are_sync<I: Iterator<Item = Token> + Sync, B: Builder + Sync>() { sync::<Parser<I, B>>() }
fn parser_iterators_are_send<I: Iterator<Item = Token> + Send, B: Builder + Send>() { send::<ParserIterator<I, B>>() }
fn parser_iterators_are_fused<I: Iterator<Item = Token>, B: Builder>() { fused::<ParserIterator<I, B>>() }
fn lexers_can_be_copied<I: Iterator<Item = char> + Clone>() { clone::<Lexer<I>>() }
fn lexers_need_no_static_source<'a>(s: &'a str) -> Lexer<std::str::Chars<'a>> { Lexer::new(s.chars()) }
fn parsers_need_no_static_source<'a>(s: &'a str) -> DefaultParser<Lexer<std::str::Chars<'a>>> { DefaultParser::new(Lexer::new(s.chars())) }
fn parsers_take_any_collection_of_tokens(v: Vec<Token>) { let _: DefaultParser<_> = DefaultParser::new(v); }

// a builder can be chosen at run time, lent or boxed
type Dyn = dyn Builder<Command = (), CommandList = (), ListableCommand = (), PipeableCommand = (), CompoundCommand = (), Word = (), Redirect = (), Error = String>;
fn builders_can_be_chosen_at_run_time() { builder::<Box<Dyn>>() }
fn builders_can_be_lent<'a>() { builder::<&'a mut Dyn>() }
fn parsers_take_a_boxed_builder<I: Iterator<Item = Token>>(i: I, b: Box<Dyn>) -> Parser<I, Box<Dyn>> { Parser::with_builder(i, b) }
fn parsers_take_a_lent_builder<'a, I: Iterator<Item = Token>, B: Builder>(i: I, b: &'a mut B) -> Parser<I, &'a mut B> { Parser::with_builder(i, b) }
fn builder_errors_need_not_be_errors<I: Iterator<Item = Token>, B: Builder>(mut p: Parser<I, B>) -> Result<Option<B::Command>, ParseError<B::Error>> { p.complete_command() }

// results can be compared, copied and shown
fn commands_can_be_compared_copied_and_shown<T: Eq + Clone + std::fmt::Debug>() { eq::<TopLevelCommand<T>>(); clone::<TopLevelCommand<T>>(); debug::<TopLevelCommand<T>>(); }
fn atomic_commands_can_be_compared_copied_and_shown<T: Eq + Clone + std::fmt::Debug>() { eq::<AtomicTopLevelCommand<T>>(); clone::<AtomicTopLevelCommand<T>>(); debug::<AtomicTopLevelCommand<T>>(); }
fn tokens_can_be_compared_copied_and_shown() { eq::<Token>(); clone::<Token>(); debug::<Token>(); display::<Token>(); eq::<Positional>() }
fn errors_can_be_compared_copied_and_shown<T: Eq + Clone + std::fmt::Debug + std::fmt::Display>() { eq::<ParseError<T>>(); clone::<ParseError<T>>(); debug::<ParseError<T>>(); display::<ParseError<T>>() }
fn lexers_and_parsers_can_be_caught<I: Iterator<Item = Token> + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() { unwind::<Token>(); unwind::<Parser<I, EmptyBuilder>>() }
