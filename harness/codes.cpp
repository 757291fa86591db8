// Codes of currencies, countries and markets; the tables of currencies, countries and jurisdictions; money and rates.
#include "trace.hpp"
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/markets/iso_10383.hpp>
#include <esl/geography/countries.hpp>
#include <esl/law/jurisdictions.hpp>
using namespace esl;
using namespace esl::economics;
using esl::economics::markets::iso_10383;
using esl::geography::iso_3166_1_alpha_2;
typedef std::vector<std::vector<std::string>> script;
#define CURRENCIES(X) \
    X(AED) X(AFN) X(ALL) X(AMD) X(ANG) X(AOA) X(ARS) X(AUD) X(AWG) X(AZN) X(BAM) X(BBD) X(BDT) X(BGN) X(BHD) X(BIF) X(BMD) X(BND) X(BOB) X(BOV) \
    X(BRL) X(BSD) X(BTN) X(BWP) X(BYN) X(BZD) X(CAD) X(CDF) X(CHE) X(CHF) X(CHW) X(CLF) X(CLP) X(CNY) X(COP) X(COU) X(CRC) X(CUC) X(CUP) X(CVE) \
    X(CZK) X(DJF) X(DKK) X(DOP) X(DZD) X(EGP) X(ERN) X(ETB) X(EUR) X(FJD) X(FKP) X(GBP) X(GEL) X(GHS) X(GIP) X(GMD) X(GNF) X(GTQ) X(GYD) X(HKD) \
    X(HNL) X(HRK) X(HTG) X(HUF) X(IDR) X(ILS) X(INR) X(IQD) X(IRR) X(ISK) X(JMD) X(JOD) X(JPY) X(KES) X(KGS) X(KHR) X(KMF) X(KPW) X(KRW) X(KWD) \
    X(KYD) X(KZT) X(LAK) X(LBP) X(LKR) X(LRD) X(LSL) X(LYD) X(MAD) X(MDL) X(MGA) X(MKD) X(MMK) X(MNT) X(MOP) X(MRU) X(MUR) X(MVR) X(MWK) X(MXN) \
    X(MXV) X(MYR) X(MZN) X(NAD) X(NGN) X(NIO) X(NOK) X(NPR) X(NZD) X(OMR) X(PAB) X(PEN) X(PGK) X(PHP) X(PKR) X(PLN) X(PYG) X(QAR) X(RON) X(RSD) \
    X(RUB) X(RWF) X(SAR) X(SBD) X(SCR) X(SDG) X(SEK) X(SGD) X(SHP) X(SLL) X(SOS) X(SRD) X(SSP) X(STN) X(SVC) X(SYP) X(SZL) X(THB) X(TJS) X(TMT) \
    X(TND) X(TOP) X(TRY) X(TTD) X(TWD) X(TZS) X(UAH) X(UGX) X(USD) X(UYI) X(UYU) X(UZS) X(VEF) X(VND) X(VUV) X(WST) X(XAF) X(XAG) X(XAU) X(XBA) \
    X(XBB) X(XBC) X(XBD) X(XCD) X(XDR) X(XOF) X(XPD) X(XPF) X(XPT) X(XSU) X(XUA) X(YER) X(ZAR) X(ZMW) X(ZWL)
#define COUNTRIES(X) \
    X(AD) X(AE) X(AF) X(AG) X(AI) X(AL) X(AM) X(AO) X(AQ) X(AR) X(AS) X(AT) X(AU) X(AW) X(AX) X(AZ) X(BA) X(BB) X(BD) X(BE) \
    X(BF) X(BG) X(BH) X(BI) X(BJ) X(BL) X(BM) X(BN) X(BO) X(BQ) X(BR) X(BS) X(BT) X(BV) X(BW) X(BY) X(BZ) X(CA) X(CC) X(CD) \
    X(CF) X(CG) X(CH) X(CI) X(CK) X(CL) X(CM) X(CN) X(CO) X(CR) X(CU) X(CV) X(CW) X(CX) X(CY) X(CZ) X(DE) X(DJ) X(DK) X(DM) \
    X(DO) X(DZ) X(EC) X(EE) X(EG) X(EH) X(ER) X(ES) X(ET) X(FI) X(FJ) X(FK) X(FM) X(FO) X(FR) X(GA) X(GB) X(GD) X(GE) X(GF) \
    X(GG) X(GH) X(GI) X(GL) X(GM) X(GN) X(GP) X(GQ) X(GR) X(GS) X(GT) X(GU) X(GW) X(GY) X(HK) X(HM) X(HN) X(HR) X(HT) X(HU) \
    X(ID) X(IE) X(IL) X(IM) X(IO) X(IQ) X(IR) X(IS) X(IT) X(JE) X(JM) X(JO) X(JP) X(KE) X(KG) X(KH) X(KI) X(KM) X(KN) X(KP) \
    X(KR) X(KW) X(KY) X(KZ) X(LA) X(LB) X(LC) X(LI) X(LK) X(LR) X(LS) X(LT) X(LU) X(LV) X(LY) X(MA) X(MC) X(MD) X(ME) X(MF) \
    X(MG) X(MH) X(MK) X(ML) X(MM) X(MN) X(MO) X(MP) X(MQ) X(MR) X(MS) X(MT) X(MU) X(MV) X(MW) X(MX) X(MY) X(MZ) X(NA) X(NC) \
    X(NE) X(NF) X(NG) X(NI) X(NL) X(NO) X(NP) X(NR) X(NU) X(NZ) X(OM) X(PA) X(PE) X(PF) X(PG) X(PH) X(PK) X(PL) X(PM) X(PN) \
    X(PR) X(PS) X(PT) X(PW) X(PY) X(QA) X(RE) X(RO) X(RS) X(RU) X(RW) X(SA) X(SB) X(SC) X(SD) X(SE) X(SG) X(SH) X(SI) X(SJ) \
    X(SK) X(SL) X(SM) X(SN) X(SO) X(SR) X(SS) X(ST) X(SV) X(SX) X(SY) X(SZ) X(TC) X(TD) X(TF) X(TG) X(TH) X(TJ) X(TK) X(TL) \
    X(TM) X(TN) X(TO) X(TR) X(TT) X(TV) X(TW) X(TZ) X(UA) X(UG) X(UM) X(US) X(UY) X(UZ) X(VA) X(VC) X(VE) X(VG) X(VI) X(VN) \
    X(VU) X(WF) X(WS) X(YE) X(YT) X(ZA) X(ZM) X(ZW)
#define JURISDICTIONS(X) \
    X(AF) X(AL) X(DZ) X(AS) X(AD) X(AO) X(AI) X(AG) X(AR) X(AM) X(AW) X(AU) X(AT) X(AZ) X(BS) X(BH) X(BD) X(BB) X(BY) X(BE) \
    X(BZ) X(BJ) X(BM) X(BT) X(BO) X(BQ) X(BA) X(BW) X(BV) X(BR) X(IO) X(VG) X(BN) X(BG) X(BF) X(BI) X(CV) X(KH) X(CM) X(CA) \
    X(KY) X(CF) X(TD) X(CL) X(CN) X(HK) X(MO) X(CX) X(CC) X(CO) X(KM) X(CG) X(CK) X(CR) X(HR) X(CU) X(CW) X(CY) X(CZ) X(CI) \
    X(KP) X(CD) X(DK) X(DJ) X(DM) X(DO) X(EC) X(EG) X(SV) X(GQ) X(ER) X(EE) X(ET) X(FO) X(FJ) X(FI) X(FR) X(GF) X(PF) X(TF) \
    X(GA) X(GM) X(GE) X(DE) X(GH) X(GI) X(GR) X(GL) X(GD) X(GP) X(GU) X(GT) X(GG) X(GN) X(GW) X(GY) X(HT) X(HM) X(VA) X(HN) \
    X(HU) X(IS) X(ID) X(IR) X(IQ) X(IE) X(IM) X(IL) X(IT) X(JM) X(JP) X(JE) X(JO) X(KZ) X(KE) X(KI) X(KW) X(KG) X(LA) X(LV) \
    X(LB) X(LS) X(LR) X(LY) X(LI) X(LT) X(LU) X(MG) X(MW) X(MY) X(MV) X(ML) X(MT) X(MH) X(MQ) X(MR) X(MU) X(YT) X(MX) X(FM) \
    X(MC) X(MN) X(ME) X(MS) X(MA) X(MZ) X(MM) X(NA) X(NR) X(NP) X(NL) X(NC) X(NZ) X(NI) X(NE) X(NG) X(NU) X(NF) X(MP) X(NO) \
    X(OM) X(PK) X(PW) X(PA) X(PG) X(PY) X(PE) X(PH) X(PN) X(PL) X(PT) X(PR) X(QA) X(KR) X(MD) X(RO) X(RU) X(RW) X(RE) X(BL) \
    X(SH) X(KN) X(LC) X(MF) X(PM) X(VC) X(WS) X(SM) X(ST) X(SA) X(SN) X(RS) X(SC) X(SL) X(SG) X(SX) X(SK) X(SI) X(SB) X(SO) \
    X(ZA) X(SS) X(ES) X(LK) X(SD) X(SR) X(SJ) X(SZ) X(SE) X(CH) X(SY) X(TJ) X(TH) X(MK) X(TL) X(TG) X(TK) X(TO) X(TT) X(TN) \
    X(TR) X(TM) X(TC) X(TV) X(UG) X(UA) X(AE) X(GB) X(TZ) X(UM) X(VI) X(US) X(UY) X(UZ) X(VU) X(VE) X(VN) X(WF) X(EH) X(YE) \
    X(ZM) X(ZW) X(AX)
static std::string unhex(const std::string &s) { std::string r; for(size_t k = 1; k + 1 < s.size(); k += 2) r += char(std::stoi(s.substr(k, 2), nullptr, 16)); return r; }
static std::string codes(const std::string &s) { std::string r = "["; for(unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string(int(c)); return r + "]"; }
static std::string ascii(std::string s) { for(char &c : s) if((unsigned char)c > 127) c = '?'; return s; }
template<class T> static std::string plain(const T &v) { std::ostringstream o; o << v; return o.str(); }
template<size_t N> static std::array<char, N> arr(const std::string &s) { std::array<char, N> r; for(size_t i = 0; i < N; ++i) r[i] = s[i]; return r; }
template<class T> static std::string digest(const T &v) { return std::to_string(std::hash<T>()(v)); }
static std::string ident(const iso_4217 &c) { return plain(cash(c).identifier); }
static bool numeral(const std::string &s) { return s == "0" || (!s.empty() && s[0] != '0' && s.size() < 20); }
static vt::obj made(const char *k, const std::string &s, const std::string &den) { return vt::obj("code").t("k", k).raw("s", codes(s)).raw("den", codes(den)); }
static void refused(const char *k, const std::string &s, const std::string &den) { made(k, s, den).b("ok", false).emit(); }

// every way to build a code from the text
static void code(const std::string &s, const std::string &den, const std::string &q)
{
    if(s.size() == 3) {
        try {
            iso_4217 c(arr<3>(s), std::stoull(den));
            auto same = iso_4217(arr<3>("ZZZ"), 7);
            same = c;
            iso_4217 copy(c);
            made("4217", s, den).b("ok", true).raw("out", codes(std::string(c) + plain(c) == s + s ? s : std::string(c) + "/" + plain(c))).raw("q", codes(q)).raw("fmt", codes(c.format(std::stoull(q))))
                .b("cashsame", cash(c) == cash(copy) && cash(c).identifier == cash(copy).identifier && !(money(c) != money(same)) && std::hash<cash>()(cash(c)) == std::hash<cash>()(cash(same)))
                .b("copysame", same == c && copy == c && !(same != c) && copy.denominator == std::stoull(den)).t("h", digest(c)).t("id", ident(c)).emit();
        } catch(const esl::exception &) { refused("4217", s, den); }
    }
    if(s.size() == 2) {
        try {
            iso_3166_1_alpha_2 c(arr<2>(s));
            made("3166", s, "1").b("ok", true).raw("out", codes(c.representation() == plain(c) ? plain(c) : "")).t("h", digest(c)).t("id", "").emit();
        } catch(const esl::exception &) { refused("3166", s, "1"); }
    }
    try {
        iso_3166_1_alpha_2 c(s);
        made("3166", s, "1").b("ok", true).raw("out", codes(c.representation())).t("h", digest(c)).t("id", "").emit();
    } catch(const esl::exception &) { refused("3166", s, "1"); }
    if(s.size() == 4) {
        try {
            iso_10383 c(arr<4>(s));
            made("10383", s, "1").b("ok", true).raw("out", codes(c.representation())).t("h", digest(c)).t("id", "").emit();
        } catch(const esl::exception &) { refused("10383", s, "1"); }
    }
    try {
        iso_10383 c(s);
        made("10383", s, "1").b("ok", true).raw("out", codes(c.representation() == plain(c) ? plain(c) : "")).t("h", digest(c)).t("id", "").emit();
    } catch(const esl::exception &) { refused("10383", s, "1"); }
}
static std::string rec(const std::string &s, const std::string &den) { return "{\"s\":" + codes(s) + ",\"den\":" + codes(den) + "}"; }
static void compare(const std::string &a, const std::string &da, const std::string &b, const std::string &db)
{
    vt::obj r;
    r.s = "{\"";
    if(a.size() == 3) {
        iso_4217 x(arr<3>(a), std::stoull(da)), y(arr<3>(b), std::stoull(db));
        r.s = "{\"eq\":" + std::string(x == y ? "true" : "false");
        r.b("ne", x != y).b("lt", x < y);
    } else {
        iso_10383 x(a), y(b);
        r.s = "{\"eq\":" + std::string(x == y ? "true" : "false");
        r.b("ne", x != y).b("lt", x < y).b("gt", x > y).b("le", x <= y).b("ge", x >= y);
    }
    vt::obj("cmp").raw("x", rec(a, da)).raw("y", rec(b, db)).raw("r", r.str()).emit();
}
static void tables()
{
    long n = 0;
#define X(C) { const iso_4217 &c = currencies::C; iso_4217 o(c.code, 12345); vt::obj("currency").t("name", #C).t("code", plain(c)).i("den", (long long)c.denominator).t("text", ascii(currency_name(c))).t("other", ascii(currency_name(o))) \
        .t("money", money(c).name()).t("cash", cash(c).name()).raw("s", codes(plain(c))).t("h", digest(c)).t("id", ident(c)).emit(); ++n; }
    CURRENCIES(X)
#undef X
    vt::obj("table").t("k", "currencies").i("n", n).emit();
    n = 0;
#define X(C) { const iso_3166_1_alpha_2 &c = geography::countries::C; vt::obj("country").t("name", #C).t("code", plain(c)).t("text", ascii(geography::country_name(c))).raw("s", codes(plain(c))).t("h", digest(c)).emit(); ++n; }
    COUNTRIES(X)
#undef X
    vt::obj("table").t("k", "countries").i("n", n).emit();
    n = 0;
#define X(C) { const law::jurisdiction &c = law::jurisdictions::C; vt::obj("jurisdiction").t("name", #C).t("sovereign", plain(c.sovereign)).t("tender", plain(c.tender)).i("den", (long long)c.tender.denominator).t("h", digest(c)).t("sh", digest(c.sovereign)).emit(); ++n; }
    JURISDICTIONS(X)
#undef X
    vt::obj("table").t("k", "jurisdictions").i("n", n).emit();
}
static void value(long long m, int k, unsigned den)
{
    double x = std::ldexp(double(m), -k);
    iso_4217 c({'A', 'B', 'C'}, den);
    cash u(c);
    auto p = u.price(x), near = price::approximate(x, c);
    auto e = vt::obj("money").i("m", m).i("k", k).i("den", den).i("price", p.value).i("near", near.value)
        .i("away", u.price(x, rounding::integer_away_from_zero<double, int64_t>).value)
        .i("units", std::llround(double(p) * double(den)))
        .b("same", p.valuation == c && near.valuation == c && price(x, p) == near);
    if(m >= 0) {
        auto a = u.amount(x);
        e.i("amount", (long long)a.amount).i("amountaway", (long long)u.amount(x, rounding::integer_away_from_zero<double, uint64_t>).amount)
         .i("back", u.price(a).value);
    } else
        e.i("amount", 0).i("amountaway", 0).i("back", 0);
    e.emit();
}
static void fraction(long long m, int k, unsigned p)
{
    rate<> r(std::ldexp(double(m), -k), (std::uint64_t)p);
    rate<> copy(r), again(r.numerator(), r.denominator());
    bool exact = copy == r && again == r;
    if((p & (p - 1)) == 0) exact = exact && double(r) * double(r.denominator()) == double(r.numerator());
    // in the precision of another rate
    std::uint64_t xn = 0, xd = 1;
    if(m > 0 && std::ldexp(double(m), -k) * double(p) >= 1) { exchange_rate x(std::ldexp(double(m), -k), exchange_rate(p + 1, p)); xn = x.numerator(); xd = x.denominator(); }
    vt::obj("rate").i("xn", (long long)xn).i("xd", (long long)xd).i("m", m).i("k", k).i("p", p).i("n", r.numerator()).i("d", r.denominator()).b("exact", exact).emit();
}
// T     C hextext den q     B hextext den hextext den     A (tables)     U hextext     M m k den     R m k p     I from to t
static void body(const script &ops)
{
    vt::obj("new").emit();
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        if(o[0] == "C") { if(numeral(o[2]) && numeral(o[3])) code(unhex(o[1]), o[2], o[3]); }
        else if(o[0] == "B") compare(unhex(o[1]), o[2], unhex(o[3]), o[4]);
        else if(o[0] == "A") tables();
        else if(o[0] == "U") {
            auto s = unhex(o[1]);
            if(s.size() == 3) vt::obj("unlisted").t("k", "4217").t("code", s).t("text", ascii(currency_name(iso_4217(arr<3>(s))))).emit();
            else vt::obj("unlisted").t("k", "3166").t("code", s).t("text", ascii(geography::country_name(iso_3166_1_alpha_2(s)))).emit();
        }
        else if(o[0] == "M") value(vt::num(o[1]), int(vt::num(o[2])), unsigned(vt::num(o[3])));
        else if(o[0] == "R") fraction(vt::num(o[1]), int(vt::num(o[2])), unsigned(vt::num(o[3])));
        else if(o[0] == "I") {
            iso_4217 c({'A', 'B', 'C'}, 100);
            auto t = simulation::time_duration(vt::num(o[3]));
            auto i = inflation_rate::from_consumer_prices(price(vt::num(o[1]), c), price(vt::num(o[2]), c), t);
            nominal_interest_rate j(static_cast<const rate<> &>(i), t);
            vt::obj("inflation").i("from", vt::num(o[1])).i("to", vt::num(o[2])).i("over", vt::num(o[3])).i("n", i.numerator()).i("d", i.denominator()).i("t", (long long)i.duration)
                .i("in", j.numerator()).i("id", j.denominator()).i("it", (long long)j.duration).emit();
        }
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
