// Statements and transactions that fail, against the table model (P25).
#include "dml.inc"
namespace {
PBT_FACET(f_faults, "a statement the transaction engine fails leaves no trace", "at least three rows were stored and a row was changed or removed", .quick = 15000, .hang_s = 120) { history(s, true); }
}
