// Shared by the harnesses that drive order books: conversion between scripts, quotes and recorded reports.
#pragma once
#include "trace.hpp"
#include <memory>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
namespace vb {
    using namespace esl::economics;
    using namespace esl::economics::markets;
    using namespace esl::economics::markets::order_book;
    typedef std::vector<std::vector<std::string>> script;
    inline long long value_of(const quote &q) { return std::get<price>(q.type).value; }
    inline long long ident(std::uint64_t i) { return i == basic_book::direct_order ? -1 : (long long)(i > 2000000000ull ? 2000000000ull : i); }
    inline quote mk(long long cents, std::uint32_t lot) { return quote(price(cents, currencies::USD), lot); }
    // instruments 1..: distinct in base, quote or both
    inline ticker instrument(long long t)
    {
        if(9 == t) { auto x = instrument(7); return ticker(x.quote, x.base); }
        return ticker(esl::identity<esl::law::property>({std::uint64_t(t % 3), std::uint64_t(t / 3 % 2)}), esl::identity<esl::law::property>({std::uint64_t(t / 6)}));
    }
    inline long long instrument_of(const ticker &x, long long n)
    {
        for(long long t = 1; t <= n; ++t) if(instrument(t) == x) return t;
        return 0;
    }
    inline esl::identity<esl::agent> agent_of(long long a) { return esl::identity<esl::agent>({std::uint64_t(a)}); }
    inline long long number_of(const esl::identity<esl::agent> &a) { return a.digits.size() == 1 ? (long long)a.digits[0] : -1; }
    inline std::string report(const execution_report &original)
    {
        execution_report r(original), copy;       // reports are values
        copy = r;
        r = copy;
        if(!(copy == original)) r.quantity = 999999;
        vt::obj o;
        o.i("state", r.state).i("side", r.side).i("qty", r.quantity).i("id", ident(r.identifier)).i("price", value_of(r.limit)).i("owner", number_of(r.owner));
        return "{" + o.str().substr(1);
    }
    inline std::string join(const std::vector<std::string> &v)
    {
        std::string s = "[";
        for(size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + v[k];
        return s + "]";
    }
    inline std::string seen(long long t, basic_book &b, bool reports)
    {
        std::vector<std::string> rs;
        for(auto &r : b.reports) rs.push_back(report(r));
        auto bid = b.bid(), ask = b.ask();
        std::vector<long long> os;
        for(auto i : b.orders()) { os.push_back(ident(i)); if(os.size() > 5000) break; }
        vt::obj o;
        o.i("t", t).i("bid", bid ? value_of(*bid) : -1).i("ask", ask ? value_of(*ask) : -1).list("orders", os);
        if(reports) o.raw("reps", join(rs)); else o.i("left", (long long)b.reports.size());
        return "{" + o.str().substr(1);
    }
    inline std::shared_ptr<basic_book> make(const std::string &kind, long long lo, long long hi, std::uint32_t lot, std::uint32_t cap)
    {
        if(kind == "s") return std::make_shared<static_order_book>(mk(lo, lot), mk(hi, lot), cap);
        return std::make_shared<binary_tree_order_book>();
    }
}
