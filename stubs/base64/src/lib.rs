use b64::engine::general_purpose::{GeneralPurpose, STANDARD as S};
#[derive(Clone, Copy)]
pub struct Config;
pub const STANDARD: Config = Config;
pub mod read {
    use super::*;
    pub struct DecoderReader<R: std::io::Read>(b64::read::DecoderReader<'static, GeneralPurpose, R>);
    impl<R: std::io::Read> DecoderReader<R> { pub fn new(r: R, _: Config) -> Self { DecoderReader(b64::read::DecoderReader::new(r, &S)) } }
    impl<R: std::io::Read> std::io::Read for DecoderReader<R> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
}
pub mod write {
    use super::*;
    pub struct EncoderWriter<W: std::io::Write>(b64::write::EncoderWriter<'static, GeneralPurpose, W>);
    impl<W: std::io::Write> EncoderWriter<W> { pub fn new(w: W, _: Config) -> Self { EncoderWriter(b64::write::EncoderWriter::new(w, &S)) } pub fn finish(&mut self) -> std::io::Result<W> { self.0.finish() } }
    impl<W: std::io::Write> std::io::Write for EncoderWriter<W> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) } fn flush(&mut self) -> std::io::Result<()> { self.0.flush() } }
}
