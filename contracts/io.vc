@module io::log
@top
use crate::vx::io::Io;
@bound trait Log : : crate::vx::io::Io
@trait Log
@fn Log::clear
@props C02 C04 C05
@spec
    ensures
        final(self).log_data() == Seq::<u8>::empty(),
        final(self).rest() == old(self).rest(), final(self).out() == old(self).out(), final(self).fault() == old(self).fault(), final(self).last() == old(self).last(),
        final(self).logging() == old(self).logging(),
@fn Log::logged
@props C02 C04 C05
@ret r
@spec
    ensures r@ == self.log_data(),
@fn Log::start
@props C02 C04 C05
@spec
    ensures
        final(self).logging(), final(self).log_data() == old(self).log_data(),
        final(self).rest() == old(self).rest(), final(self).out() == old(self).out(), final(self).fault() == old(self).fault(), final(self).last() == old(self).last(),
@fn Log::stop
@props C02 C04 C05
@spec
    ensures
        !final(self).logging(), final(self).log_data() == old(self).log_data(),
        final(self).rest() == old(self).rest(), final(self).out() == old(self).out(), final(self).fault() == old(self).fault(), final(self).last() == old(self).last(),

@module io::log_reader
@top
use crate::vx::io::{Io, took, gave, failed};
impl<R: Io> Io for LogReader<R> {
    open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
    open spec fn fault(&self) -> Option<crate::vx::io::Error> { self.inner.fault() }
    open spec fn out(&self) -> Seq<u8> { self.inner.out() }
    #[verifier::prophetic] open spec fn last(&self) -> Seq<u8> { self.inner.last() }
    open spec fn log_data(&self) -> Seq<u8> { self.log_data@ }
    open spec fn logging(&self) -> bool { self.is_logging }
}
@bound Log for LogReader : <R: Io>
@fn LogReader::new
@props C02 C04
@ret r
@spec
    ensures r.inner == inner, r.is_logging, r.log_data@ == Seq::<u8>::empty(),
@fn Log for LogReader::clear
@props C02 C04
@fn Log for LogReader::logged
@props C02 C04
@fn Log for LogReader::start
@props C02 C04
@fn Log for LogReader::stop
@props C02 C04
@fn Read for LogReader::read
@props C02 C04

@module io::log_writer
@top
use crate::vx::io::{Io, took, gave, failed};
impl<W: Io> Io for LogWriter<W> {
    open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
    open spec fn fault(&self) -> Option<crate::vx::io::Error> { self.inner.fault() }
    open spec fn out(&self) -> Seq<u8> { self.inner.out() }
    #[verifier::prophetic] open spec fn last(&self) -> Seq<u8> { self.inner.last() }
    open spec fn log_data(&self) -> Seq<u8> { self.log_data@ }
    open spec fn logging(&self) -> bool { self.is_logging }
}
@bound Log for LogWriter : <W: Io>
@fn LogWriter::new
@props C05
@ret r
@spec
    ensures r.inner == inner, r.is_logging, r.log_data@ == Seq::<u8>::empty(),
@fn Log for LogWriter::clear
@props C05
@fn Log for LogWriter::logged
@props C05
@fn Log for LogWriter::start
@props C05
@fn Log for LogWriter::stop
@props C05
@fn Write for LogWriter::write
@props C05
@fn Write for LogWriter::flush
@props C05
