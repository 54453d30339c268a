// P29: requests of the SQL service, as sessions send them, against a model of transactions, prepared statements and a
// table: every request gets exactly one answer, of its own kind, saying what happened.
#include "service.inc"
namespace {

PBT_FACET(f_history, "sessions get one right answer to each request", "a query was answered, a transaction committed and a request refused", .quick = 40000, .hang_s = 60) {
    World w{s};
    auto n = s.range(1, 40);
    for (i64 i = 0; i < n; ++i) w.step();
    w.finish();
    if (w.queries > 0 && w.commits > 0 && w.errors_seen > 0) s.nontrivial();
}

// requests damaged in any way: at most one answer, exactly one when all is done, and the service goes on
PBT_FACET(f_damaged, "damaged requests get one answer and leave the service alive", "a damaged request still had a known kind", .quick = 25000, .hang_s = 60) {
    World w{s};
    for (int i = 0; i < 2; ++i) w.begin();
    for (int i = 0; i < 3; ++i) w.prepare();
    auto n = s.range(1, 12);
    for (i64 i = 0; i < n; ++i) {
        rq::Request r;
        auto tx = [&](auto* m) { if (!s.chance(8)) m->mutable_transaction_handle()->set_handle(w.txs.empty() || s.chance(15) ? s.any_u64() : w.txs[s.idx(w.txs.size())].handle); };
        auto st = [&](auto* m) { if (!s.chance(8)) m->mutable_prepared_statement_handle()->set_handle(w.sts.empty() || s.chance(15) ? s.any_u64() : w.sts[s.idx(w.sts.size())].handle); };
        auto ps = [&](auto* m) {
            for (i64 k = s.range(0, 6); k > 0; --k) {
                auto* p = m->add_parameters();
                p->set_name(cat("p", s.range(0, 5)));
                switch (s.draw(14)) {
                    case 0: p->set_boolean_value(s.flip()); break;
                    case 1: p->set_int4_value(s.any_int<std::int32_t>()); break;
                    case 2: p->set_int8_value(s.any_int<i64>()); break;
                    case 3: p->set_float4_value(s.any_float()); break;
                    case 4: p->set_float8_value(s.any_double()); break;
                    case 5: p->set_character_value(s.chars("ab ", 5)); break;
                    case 6: p->set_octet_value(s.bytes(5)); break;
                    case 7: p->mutable_decimal_value()->set_unscaled_value(s.bytes(20)); p->mutable_decimal_value()->set_exponent(s.any_int<std::int32_t>()); break;
                    case 8: p->set_date_value(s.any_int<i64>()); break;
                    case 9: p->set_time_of_day_value(s.any_u64()); break;
                    case 10: p->mutable_blob()->set_channel_name("nothing"); break;
                    case 11: p->mutable_clob(); break;
                    case 12: p->set_reference_column_position(s.any_u64()); break;
                    case 13: p->set_reference_column_name("C0"); break;
                    default: break;
                }
            }
        };
        auto sql = [&](auto* m) { if (!s.chance(8)) m->set_sql(w.text(true).text); };
        switch (s.draw(16)) {
            case 0: tx(r.mutable_execute_statement()); sql(r.mutable_execute_statement()); break;
            case 1: tx(r.mutable_execute_query()); sql(r.mutable_execute_query()); break;
            case 2: tx(r.mutable_execute_prepared_statement()); st(r.mutable_execute_prepared_statement()); ps(r.mutable_execute_prepared_statement()); break;
            case 3: tx(r.mutable_execute_prepared_query()); st(r.mutable_execute_prepared_query()); ps(r.mutable_execute_prepared_query()); break;
            case 4: tx(r.mutable_commit()); break;
            case 5: tx(r.mutable_rollback()); break;
            case 6: tx(r.mutable_dispose_transaction()); break;
            case 7: st(r.mutable_dispose_prepared_statement()); break;
            case 8: st(r.mutable_explain()); ps(r.mutable_explain()); break;
            case 9: sql(r.mutable_explain_by_text()); break;
            case 10: tx(r.mutable_get_error_info()); break;
            case 11: tx(r.mutable_get_transaction_status()); break;
            case 12: tx(r.mutable_get_large_object_data()); r.mutable_get_large_object_data()->mutable_reference()->set_object_id(s.any_u64()); r.mutable_get_large_object_data()->mutable_reference()->set_reference_tag(s.any_u64()); break;
            case 13: r.mutable_describe_table()->set_name(s.chars("TU0", 2)); break;
            case 14: r.mutable_prepare(); sql(r.mutable_prepare()); for (i64 k = s.range(0, 3); k > 0; --k) { auto* p = r.mutable_prepare()->add_placeholders(); p->set_name(cat("p", s.range(0, 3))); p->set_atom_type(static_cast<AT>(s.range(0, 31))); } break;
            case 15: r.mutable_extract_statement_info()->set_payload(s.bytes(20)); break;
            default: { auto* o = r.mutable_begin()->mutable_option(); o->set_type(static_cast<rq::TransactionType>(s.range(0, 4))); o->set_modifies_definitions(s.flip()); if (s.flip()) o->add_write_preserves()->set_table_name(s.chars("T0U", 2)); if (s.flip()) o->add_inclusive_read_areas()->set_table_name("T0"); if (s.flip()) o->set_scan_parallel(s.any_int<std::int32_t>()); break; }
        }
        auto body = w.pack(r);
        if (s.chance(60))
            for (i64 k = s.range(1, 3); k > 0 && !body.empty(); --k) {
                auto at = s.idx(body.size());
                switch (s.draw(2)) {
                    case 0: body[at] = static_cast<char>(s.draw(255)); break;
                    case 1: body.erase(at, 1); break;
                    default: body.insert(at, 1, static_cast<char>(s.draw(255))); break;
                }
            }
        rq::Request seen;
        if (seen.ParseFromString(body)) {
            // requests that read and write files are left out
            if (seen.has_execute_dump() || seen.has_execute_load()) continue;
            s.nontrivial();
            s.note("request ", static_cast<int>(seen.request_case()), " ", seen.ShortDebugString());
        } else s.note("request x'", pbt::hex(body), "'");
        auto o = std::make_shared<Seen>();
        o->cancel = s.chance(5);
        auto [q, p] = w.raw(w.someone(), body, o);
        w.protocol(*q, "a damaged request");
        PBT_EQ(q->finals(), 1U, "answers to a damaged request");
        PBT_CHECK(p.expired(), "the response to a damaged request is kept");
        PBT_EQ(fake::st().open_iterators, 0U, "iterators left open");
    }
    // a session can still work
    rq::Request b;
    b.mutable_begin();
    auto a = w.send(0, b, rs::Response::kBegin, "Begin");
    PBT_CHECK(a.ok(), "Begin after damaged requests: ", a.what());
    auto h = a.r.begin().success().transaction_handle().handle();
    rq::Request q;
    q.mutable_execute_query()->mutable_transaction_handle()->set_handle(h);
    q.mutable_execute_query()->set_sql(w.e.text(w.e.select_all("T0")));
    a = w.send(0, q, rs::Response::kResultOnly, "ExecuteQuery");
    PBT_CHECK(a.ok(), "ExecuteQuery after damaged requests: ", a.what());
    rq::Request c;
    c.mutable_commit()->mutable_transaction_handle()->set_handle(h);
    a = w.send(0, c, rs::Response::kResultOnly, "Commit");
    PBT_CHECK(a.ok(), "Commit after damaged requests: ", a.what());
}
}  // namespace
