@file rezippers/src/main.rs => tool
@header
use crate::{cat, dump, zero};
use crate::bit::*;
use crate::gzip::*;
use crate::rfc::*;
use crate::vx::io::Printed;
use crate::vx::io::Write as _;
use crate::vx::io::{stdin_bytes, stdin_faulty};
use crate::vx::fs::{file_bytes, readable};
use crate::vx::flate2::{deflated, content};
use crate::vx::crc::checksum;
use crate::cat::stream_out;
use crate::dump::listing;
use crate::zero::{body, pieces, le4};
@dropuse clap::Parser
@dropuse clap::Subcommand
@gsubst R-dyn Box::new ==> crate::vx::io::any
@gsubst R-dyn as Box<dyn Read> ==> 
@gsubst R-dyn Box<dyn Read> ==> crate::vx::io::AnyRead
@gsubst R-dyn Box<dyn io::Read> ==> crate::vx::io::AnyRead
@gsubst R-dyn as Box<dyn io::Read> ==> 
@pass cat::run => vx_stdout
@pass zero::run => vx_stdout
@pass dump::run => vx_print
@ghost
/// what the tool is given to read: the file named, or else standard input
pub open spec fn given(file: Option<PathBuf>) -> Seq<u8> {
    match file { Some(p) => file_bytes(p), None => stdin_bytes() }
}
pub open spec fn good(file: Option<PathBuf>) -> bool {
    match file { Some(p) => readable(p), None => !stdin_faulty() }
}
@fn open_file
@spec
    ensures
        r matches Ok(x) ==> x.rest() == given(file) && (good(file) ==> !x.faulty()),
        good(file) ==> r is Ok,
@fn main
@param vx_cli: Cli
@param vx_stdout: &mut io::Stdout
@param vx_print: &mut Printed
@subst R-param Cli::parse() ==> vx_cli
@spec
    requires
        match vx_cli.command {
            Command::Cat { file } => sane_len(given(file).len()),
            Command::Dump { file } => sane_len(given(file).len()),
            Command::Zero { file } => header_len(given(file)) matches Some(h) ==> deflated(given(file).skip(h)) && content(given(file).skip(h)).len() > 0,
        },
    ensures
        vx_cli.command matches Command::Cat { file } ==> (r is Ok ==> (header_len(given(file)) matches Some(h) && (stream_out(Seq::empty(), bytes_bits(given(file).skip(h))) matches Some(o) && final(vx_stdout).written() == old(vx_stdout).written() + o))), //@ C02
        vx_cli.command matches Command::Cat { file } ==> (r is Err && good(file) && !old(vx_stdout).faulty() ==> (match header_len(given(file)) { None => true, Some(h) => stream_out(Seq::empty(), bytes_bits(given(file).skip(h))) is None })), //@ C02
        vx_cli.command matches Command::Dump { file } ==> (good(file) ==> (match header_len(given(file)) { None => r is Err && final(vx_print).text() == old(vx_print).text(), Some(h) => (final(vx_print).text(), r is Ok) == listing(old(vx_print).text(), 0, bytes_bits(given(file).skip(h))) })), //@ C19
        vx_cli.command matches Command::Zero { file } ==> (r is Ok ==> header_len(given(file)) is Some && ({ let h = header_len(given(file))->0; let c = content(given(file).skip(h)); final(vx_stdout).written() == old(vx_stdout).written() + given(file).take(h) + body(pieces(c), c.len() as int) + le4(checksum(crate::vx::crc::CRC_32_ISO_HDLC, c) as int) + le4((c.len() % 4294967296) as int) })), //@ C17
        vx_cli.command matches Command::Zero { file } ==> (header_len(given(file)) is Some && good(file) && !old(vx_stdout).faulty() ==> r is Ok), //@ C17
