// Parquet and Arrow files cannot be read or written here (no library): nothing can be opened.
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/parquet_reader.h>
#include <jogasaki/executor/file/parquet_writer.h>
namespace jogasaki::executor::file {
std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view, reader_option const*, std::size_t) { return {}; }
std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, parquet_writer_option) { return {}; }
std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, arrow_writer_option) { return {}; }
}  // namespace jogasaki::executor::file
