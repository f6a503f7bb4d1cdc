// Replay / bounded-check harness: drives the real libcommsdsl through its public interface and prints what it
// observed as JSON, one line per command.  Every command runs in a forked child, so that an abort or a sanitizer
// report of the code under test is an observation ("crash"), never the end of the harness.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <cmath>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseSchema.h"
#include "commsdsl/parse/ParseAlias.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseFrame.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseInterface.h"
#include "commsdsl/parse/ParseLayer.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseMessage.h"
#include "commsdsl/parse/ParseNamespace.h"
#include "commsdsl/parse/ParseOptCond.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include "commsdsl/gen/util.h"
#include "commsdsl/gen/comms.h"
#include "commsdsl/gen/GenGenerator.h"
#include "commsdsl/gen/GenBundleField.h"
#include "commsdsl/gen/GenBitfieldField.h"
#include "commsdsl/gen/GenFrame.h"
#include "commsdsl/gen/GenInterface.h"
#include "commsdsl/gen/GenLayer.h"
#include "commsdsl/gen/GenListField.h"
#include "commsdsl/gen/GenNamespace.h"
#include "commsdsl/gen/GenOptionalField.h"
#include "commsdsl/gen/GenSchema.h"
#include "commsdsl/gen/GenVariantField.h"
#include "commsdsl/gen/GenMessage.h"
#include "commsdsl/gen/GenField.h"
#include "commsdsl/gen/GenLogger.h"
#include "commsdsl/gen/GenProgramOptions.h"

using namespace commsdsl::parse;
namespace gen = commsdsl::gen;

static std::string q(const std::string& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct J {
    std::ostringstream& o;
    bool first = true;
    char close;
    J(std::ostringstream& os, char op = '{') : o(os), close(op == '{' ? '}' : ']') { o << op; }
    ~J() { o << close; }
    void sep() { if (!first) o << ','; first = false; }
    void k(const char* n) { sep(); o << '"' << n << "\":"; }
    void s(const char* n, const std::string& v) { k(n); o << q(v); }
    void i(const char* n, std::intmax_t v) { k(n); o << '"' << v << '"'; }
    void u(const char* n, std::uintmax_t v) { k(n); o << '"' << v << '"'; }
    void n(const char* n_, long long v) { k(n_); o << v; }
    void b(const char* n, bool v) { k(n); o << (v ? "true" : "false"); }
    void d(const char* n, double v) { char t[64]; snprintf(t, sizeof t, "\"%a\"", v); k(n); o << t; }
};

static void cond(std::ostringstream& o, const ParseOptCond& c)
{
    if (!c.parseValid()) { o << "null"; return; }
    J j(o);
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        j.s("left", e.parseLeft()); j.s("op", e.parseOp()); j.s("right", e.parseRight());
        auto l = e.parseLeftInfo(); auto r = e.parseRightInfo();
        j.n("lt", int(l.m_type)); j.n("lm", int(l.m_mode)); j.s("la", l.m_access);
        j.n("rt", int(r.m_type)); j.n("rm", int(r.m_mode)); j.s("ra", r.m_access);
    } else {
        ParseOptCondList l(c);
        j.n("ltype", int(l.parseType()));
        j.k("conds"); J a(o, '[');
        for (auto& x : l.parseConditions()) { a.sep(); cond(o, x); }
    }
}

static void field(std::ostringstream& o, const ParseField& f, int depth = 0);

static void flds(std::ostringstream& o, const std::vector<ParseField>& l, int depth)
{
    J a(o, '[');
    for (auto& x : l) { a.sep(); field(o, x, depth); }
}

static void attrs(J& j, std::ostringstream& o, const std::multimap<std::string, std::string>& m)
{
    if (m.empty()) return;
    j.k("attrs"); J a(o, '[');
    for (auto& x : m) { a.sep(); o << '[' << q(x.first) << ',' << q(x.second) << ']'; }
}

static void aliases(J& j, std::ostringstream& o, const std::vector<ParseAlias>& l)
{
    if (l.empty()) return;
    j.k("aliases"); J a(o, '[');
    for (auto& x : l) { a.sep(); J e(o); e.s("name", x.parseName()); e.s("field", x.parseFieldName()); e.s("desc", x.parseDescription()); }
}

static std::string hex(const std::vector<std::uint8_t>& v)
{
    std::string r; char b[4];
    for (auto x : v) { snprintf(b, sizeof b, "%02x", x); r += b; }
    return r;
}

static void field(std::ostringstream& o, const ParseField& f, int depth)
{
    if (!f.parseValid()) { o << "null"; return; }
    J j(o);
    if (depth > 40) { j.b("deep", true); return; }
    using K = ParseField::ParseKind;
    auto k = f.parseKind();
    j.n("kind", int(k)); j.s("name", f.parseName()); j.s("disp", f.parseDisplayName()); j.s("desc", f.parseDescription());
    j.n("sem", int(f.parseSemanticType()));
    j.u("minlen", f.parseMinLength()); j.u("maxlen", f.parseMaxLength()); j.u("bitlen", f.parseBitLength());
    j.u("since", f.parseSinceVersion()); j.u("depr", f.parseDeprecatedSince()); j.b("removed", f.parseIsDeprecatedRemoved());
    j.s("ref", f.parseExternalRef()); j.b("pseudo", f.parseIsPseudo()); j.b("fixedv", f.parseIsFixedValue()); j.b("custom", f.parseIsCustomizable());
    j.b("foi", f.parseIsFailOnInvalid()); j.b("force", f.parseIsForceGen());
    j.s("pos", f.parseSchemaPos());
    j.k("ovr");
    o << '[' << int(f.parseValueOverride()) << ',' << int(f.parseReadOverride()) << ',' << int(f.parseWriteOverride()) << ',' << int(f.parseRefreshOverride()) << ','
      << int(f.parseLengthOverride()) << ',' << int(f.parseValidOverride()) << ',' << int(f.parseNameOverride()) << ']';
    j.s("ccf", f.parseCopyCodeFrom());
    attrs(j, o, f.parseExtraAttributes());
    switch (k) {
    case K::Int: {
        ParseIntField x(f);
        j.n("type", int(x.parseType())); j.n("endian", int(x.parseEndian())); j.i("seroff", x.parseSerOffset()); j.i("min", x.parseMinValue()); j.i("max", x.parseMaxValue());
        j.i("def", x.parseDefaultValue());
        auto s = x.parseScaling(); j.i("sn", s.first); j.i("sd", s.second);
        j.k("ranges"); { J a(o, '['); for (auto& r : x.parseValidRanges()) { a.sep(); J e(o); e.i("min", r.m_min); e.i("max", r.m_max); e.u("since", r.m_sinceVersion); e.u("depr", r.m_deprecatedSince); } }
        j.k("specials"); { J a(o, '['); for (auto& r : x.parseSpecialValues()) { a.sep(); J e(o); e.s("name", r.first); e.i("val", r.second.m_value); e.u("since", r.second.m_sinceVersion); e.u("depr", r.second.m_deprecatedSince); e.s("disp", r.second.m_displayName); } }
        j.n("units", int(x.parseUnits())); j.b("vcv", x.parseValidCheckVersion()); j.u("dd", x.parseDisplayDecimals()); j.i("doff", x.parseDisplayOffset()); j.b("signext", x.parseSignExt());
        j.b("all", x.parseAvailableLengthLimit());
        break; }
    case K::Enum: {
        ParseEnumField x(f);
        j.n("type", int(x.parseType())); j.n("endian", int(x.parseEndian())); j.i("def", x.parseDefaultValue());
        j.k("values"); { J a(o, '['); for (auto& r : x.parseValues()) { a.sep(); J e(o); e.s("name", r.first); e.i("val", r.second.m_value); e.u("since", r.second.m_sinceVersion); e.u("depr", r.second.m_deprecatedSince); e.s("disp", r.second.m_displayName); } }
        j.k("rev"); { J a(o, '['); for (auto& r : x.parseRevValues()) { a.sep(); J e(o); e.i("val", r.first); e.s("name", r.second); } }
        j.b("nonuniq", x.parseIsNonUniqueAllowed()); j.b("uniq", x.parseIsUnique()); j.b("vcv", x.parseValidCheckVersion()); j.b("hex", x.parseHexAssign()); j.b("all", x.parseAvailableLengthLimit());
        break; }
    case K::Set: {
        ParseSetField x(f);
        j.n("type", int(x.parseType())); j.n("endian", int(x.parseEndian())); j.b("defbit", x.parseDefaultBitValue()); j.b("resbit", x.parseReservedBitValue());
        j.k("bits"); { J a(o, '['); for (auto& r : x.parseBits()) { a.sep(); J e(o); e.s("name", r.first); e.u("idx", r.second.m_idx); e.u("since", r.second.m_sinceVersion); e.u("depr", r.second.m_deprecatedSince); e.b("def", r.second.m_defaultValue); e.b("res", r.second.m_reserved); e.b("resv", r.second.m_reservedValue); } }
        j.k("rev"); { J a(o, '['); for (auto& r : x.parseRevBits()) { a.sep(); J e(o); e.u("idx", r.first); e.s("name", r.second); } }
        j.b("nonuniq", x.parseIsNonUniqueAllowed()); j.b("uniq", x.parseIsUnique()); j.b("vcv", x.parseValidCheckVersion()); j.b("all", x.parseAvailableLengthLimit());
        break; }
    case K::Float: {
        ParseFloatField x(f);
        j.n("type", int(x.parseType())); j.n("endian", int(x.parseEndian())); j.d("def", x.parseDefaultValue());
        j.k("ranges"); { J a(o, '['); for (auto& r : x.parseValidRanges()) { a.sep(); J e(o); e.d("min", r.m_min); e.d("max", r.m_max); e.u("since", r.m_sinceVersion); e.u("depr", r.m_deprecatedSince); } }
        j.k("specials"); { J a(o, '['); for (auto& r : x.parseSpecialValues()) { a.sep(); J e(o); e.s("name", r.first); e.d("val", r.second.m_value); e.u("since", r.second.m_sinceVersion); e.u("depr", r.second.m_deprecatedSince); } }
        j.n("units", int(x.parseUnits())); j.b("vcv", x.parseValidCheckVersion()); j.u("dd", x.parseDisplayDecimals()); j.b("nonuniq", x.parseHasNonUniqueSpecials());
        break; }
    case K::Bitfield: { ParseBitfieldField x(f); j.n("endian", int(x.parseEndian())); j.k("members"); flds(o, x.parseMembers(), depth + 1); j.k("validcond"); cond(o, x.parseValidCond()); break; }
    case K::Bundle: { ParseBundleField x(f); j.k("members"); flds(o, x.parseMembers(), depth + 1); aliases(j, o, x.parseAliases()); j.k("validcond"); cond(o, x.parseValidCond()); break; }
    case K::String: {
        ParseStringField x(f);
        j.s("def", x.parseDefaultValue()); j.s("enc", x.parseEncodingStr()); j.u("fixed", x.parseFixedLength());
        j.k("lp"); if (x.parseHasLengthPrefixField()) field(o, x.parseLengthPrefixField(), depth + 1); else o << "null";
        j.b("zts", x.parseHasZeroTermSuffix()); j.s("dlp", x.parseDetachedPrefixFieldName());
        j.k("valid"); { J a(o, '['); for (auto& r : x.parseValidValues()) { a.sep(); J e(o); e.s("val", r.m_value); e.u("since", r.m_sinceVersion); e.u("depr", r.m_deprecatedSince); } }
        break; }
    case K::Data: {
        ParseDataField x(f);
        j.s("def", hex(x.parseDefaultValue())); j.u("fixed", x.parseFixedLength());
        j.k("lp"); if (x.parseHasLengthPrefixField()) field(o, x.parseLengthPrefixField(), depth + 1); else o << "null";
        j.s("dlp", x.parseDetachedPrefixFieldName());
        j.k("valid"); { J a(o, '['); for (auto& r : x.parseValidValues()) { a.sep(); J e(o); e.s("val", hex(r.m_value)); e.u("since", r.m_sinceVersion); e.u("depr", r.m_deprecatedSince); } }
        break; }
    case K::List: {
        ParseListField x(f);
        j.k("elem"); field(o, x.parseElementField(), depth + 1);
        j.u("fixed", x.parseFixedCount());
        j.k("cp"); if (x.parseHasCountPrefixField()) field(o, x.parseCountPrefixField(), depth + 1); else o << "null";
        j.k("lp"); if (x.parseHasLengthPrefixField()) field(o, x.parseLengthPrefixField(), depth + 1); else o << "null";
        j.k("ep"); if (x.parseHasElemLengthPrefixField()) field(o, x.parseElemLengthPrefixField(), depth + 1); else o << "null";
        j.k("ts"); if (x.parseHasTermSuffixField()) field(o, x.parseTermSuffixField(), depth + 1); else o << "null";
        j.s("dcp", x.parseDetachedCountPrefixFieldName()); j.s("dlp", x.parseDetachedLengthPrefixFieldName()); j.s("dep", x.parseDetachedElemLengthPrefixFieldName()); j.s("dts", x.parseDetachedTermSuffixFieldName());
        j.b("efl", x.parseElemFixedLength());
        break; }
    case K::Ref: { ParseRefField x(f); j.k("to"); field(o, x.parseField(), depth + 1); break; }
    case K::Optional: { ParseOptionalField x(f); j.n("mode", int(x.parseDefaultMode())); j.k("cond"); cond(o, x.parseCond()); j.k("to"); field(o, x.parseField(), depth + 1); j.b("mrf", x.parseMissingOnReadFail()); j.b("minv", x.parseMissingOnInvalid()); break; }
    case K::Variant: { ParseVariantField x(f); j.k("members"); flds(o, x.parseMembers(), depth + 1); j.u("defidx", x.parseDefaultMemberIdx()); break; }
    default: break;
    }
}

static void msg(std::ostringstream& o, const ParseMessage& m)
{
    J j(o);
    j.s("name", m.parseName()); j.s("disp", m.parseDisplayName()); j.s("desc", m.parseDescription());
    j.u("id", m.parseId()); j.u("order", m.parseOrder()); j.u("minlen", m.parseMinLength()); j.u("maxlen", m.parseMaxLength());
    j.u("since", m.parseSinceVersion()); j.u("depr", m.parseDeprecatedSince()); j.b("removed", m.parseIsDeprecatedRemoved());
    j.s("ref", m.parseExternalRef()); j.b("custom", m.parseIsCustomizable()); j.b("foi", m.parseIsFailOnInvalid()); j.n("sender", int(m.parseSender()));
    j.k("ovr"); o << '[' << int(m.parseReadOverride()) << ',' << int(m.parseWriteOverride()) << ',' << int(m.parseRefreshOverride()) << ',' << int(m.parseLengthOverride()) << ',' << int(m.parseValidOverride()) << ',' << int(m.parseNameOverride()) << ']';
    j.s("ccf", m.parseCopyCodeFrom());
    j.k("construct"); cond(o, m.parseConstruct()); j.k("readcond"); cond(o, m.parseReadCond()); j.k("validcond"); cond(o, m.parseValidCond());
    attrs(j, o, m.parseExtraAttributes());
    j.k("platforms"); { J a(o, '['); for (auto& p : m.parsePlatforms()) { a.sep(); o << q(p); } }
    aliases(j, o, m.parseAliases());
    j.k("fields"); flds(o, m.parseFields(), 0);
}

static void layer(std::ostringstream& o, const ParseLayer& l)
{
    J j(o);
    j.s("name", l.parseName()); j.s("disp", l.parseDisplayName()); j.s("desc", l.parseDescription()); j.n("kind", int(l.parseKind()));
    j.k("field"); if (l.parseHasField()) field(o, l.parseField()); else o << "null";
    using K = ParseLayer::ParseKind;
    if (l.parseKind() == K::Checksum) { ParseChecksumLayer x(l); j.n("alg", int(x.parseAlg())); j.s("calg", x.parseCustomAlgName()); j.s("from", x.parseFromLayer()); j.s("until", x.parseUntilLayer()); j.b("vbr", x.parseVerifyBeforeRead()); }
    if (l.parseKind() == K::Sync) { ParseSyncLayer x(l); j.b("seek", x.parseSeekField()); j.k("esc"); if (x.parseHasEscField()) field(o, x.parseEscField()); else o << "null"; j.s("from", x.parseFromLayer()); j.b("vbr", x.parseVerifyBeforeRead()); j.b("after", x.parseIsAfterPayload()); }
    if (l.parseKind() == K::Custom) { ParseCustomLayer x(l); j.n("sem", int(x.parseSemanticLayerType())); j.s("from", x.parseChecksumFromLayer()); j.s("until", x.parseChecksumUntilLayer()); }
    if (l.parseKind() == K::Value) { ParseValueLayer x(l); j.s("fname", x.parseFieldName()); j.u("fidx", x.parseFieldIdx()); j.b("pseudo", x.parsePseudo()); j.k("ifaces"); J a(o, '['); for (auto& i : x.parseInterfaces()) { a.sep(); o << q(i.parseExternalRef()); } }
}

static void ns(std::ostringstream& o, const ParseNamespace& n)
{
    J j(o);
    j.s("name", n.parseName()); j.s("disp", n.parseDisplayName()); j.s("ref", n.parseExternalRef());
    j.k("fields"); flds(o, n.parseFields(), 0);
    j.k("msgs"); { J a(o, '['); for (auto& m : n.parseMessages()) { a.sep(); msg(o, m); } }
    j.k("ifaces"); { J a(o, '['); for (auto& i : n.parseInterfaces()) { a.sep(); J e(o); e.s("name", i.parseName()); e.s("ref", i.parseExternalRef()); e.s("ccf", i.parseCopyCodeFrom()); aliases(e, o, i.parseAliases()); e.k("fields"); flds(o, i.parseFields(), 0); } }
    j.k("frames"); { J a(o, '['); for (auto& f : n.parseFrames()) { a.sep(); J e(o); e.s("name", f.parseName()); e.s("disp", f.parseDisplayName()); e.s("desc", f.parseDescription()); e.s("ref", f.parseExternalRef()); e.k("layers"); J l(o, '['); for (auto& x : f.parseLayers()) { l.sep(); layer(o, x); } } }
    j.k("ns"); { J a(o, '['); for (auto& x : n.parseNamespaces()) { a.sep(); ns(o, x); } }
}

static std::string g_tmp;

static std::string put(const std::string& data, int idx)
{
    std::string p = g_tmp + "/s" + std::to_string(getpid()) + "_" + std::to_string(idx) + ".xml";
    std::ofstream(p, std::ios::binary).write(data.data(), std::streamsize(data.size()));
    return p;
}

// schemas separated by a \x1e byte are given to the same protocol object
static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r(1);
    for (char x : s) { if (x == c) r.emplace_back(); else r.back() += x; }
    return r;
}

static std::string cmdSchema(const std::string& data)
{
    std::ostringstream o;
    auto files = split(data, '\x1e');
    {
        J j(o);
        std::vector<std::string> paths;
        for (std::size_t i = 0; i < files.size(); ++i) paths.push_back(put(files[i], int(i)));
        ParseProtocol p;
        unsigned errs = 0, warns = 0;
        std::vector<std::string> msgs;
        p.parseSetErrorReportCallback([&](ParseErrorLevel l, const std::string& m) {
            if (l == ParseErrorLevel_Error) ++errs;
            if (l == ParseErrorLevel_Warning) ++warns;
            if (l == ParseErrorLevel_Error && msgs.size() < 4) msgs.push_back(m);
        });
        if (files.size() > 1) p.parseSetMultipleSchemasEnabled(true);
        bool ok = true;
        for (auto& f : paths) ok = ok && p.parse(f);
        for (auto& f : paths) unlink(f.c_str());
        bool val = ok && p.parseValidate();
        j.b("parse", ok); j.b("valid", val); j.n("errs", errs); j.n("warns", warns);
        j.k("msgs"); { J a(o, '['); for (auto& m : msgs) { a.sep(); auto pos = m.find("/s"); (void)pos; o << q(m); } }
        if (val) {
            j.k("schemas"); J a(o, '[');
            for (auto& s : p.parseSchemas()) {
                a.sep(); J e(o);
                e.s("name", s.parseName()); e.u("id", s.parseId()); e.u("version", s.parseVersion()); e.u("dsl", s.parseDslVersion()); e.n("endian", int(s.parseEndian()));
                e.b("nonuniq", s.parseNonUniqueMsgIdAllowed());
                attrs(e, o, s.parseExtraAttributes());
                e.k("platforms"); { J pl(o, '['); for (auto& x : s.parsePlatforms()) { pl.sep(); o << q(x); } }
                e.k("all"); { J pl(o, '['); for (auto& x : s.parseAllMessages()) { pl.sep(); o << '[' << q(x.parseExternalRef()) << ",\"" << x.parseId() << "\",\"" << x.parseOrder() << "\"]"; } }
                e.k("ns"); { J pl(o, '['); for (auto& x : s.parseNamespaces()) { pl.sep(); ns(o, x); } }
            }
        }
    }
    return o.str();
}

// V <forced|-> <minRemote|-> <versionIndep 0/1>\x1f<xml>\x1f since depr removed; ...
struct Gen : gen::GenGenerator {
    bool genPrepareImpl() override { return true; }
};

static void vopt(gen::GenGenerator& g, const gen::GenField& f, J& a, std::ostringstream& o)
{
    auto& p = f.genParseObj();
    a.sep();
    o << '[' << q(p.parseName()) << ',' << int(gen::comms::genIsVersionOptionalField(f, g)) << ']';
    if (auto* b = dynamic_cast<const gen::GenBundleField*>(&f)) for (auto& m : b->genMembers()) vopt(g, *m, a, o);
}

static std::string cmdVersion(const std::string& data)
{
    auto parts = split(data, '\x1f');
    std::istringstream h(parts.at(0));
    std::string fv, mr; int indep = 0;
    h >> fv >> mr >> indep;
    auto path = put(parts.at(1), 0);
    std::ostringstream o;
    {
        J j(o);
        Gen g;
        if (fv != "-") g.genForceSchemaVersion(unsigned(std::stoull(fv)));
        if (mr != "-") g.genSetMinRemoteVersion(unsigned(std::stoull(mr)));
        if (indep) g.genSetVersionIndependentCodeForced(true);
        bool ok = g.genPrepare({path});
        unlink(path.c_str());
        j.b("ok", ok);
        if (ok) {
            auto& s = g.genCurrentSchema();
            j.u("version", s.genSchemaVersion()); j.b("verdep", s.genVersionDependentCode());
            j.k("q"); J a(o, '[');
            std::istringstream qs(parts.at(2));
            std::string a1, b1; int r;
            while (qs >> a1 >> b1 >> r) {
                auto x = unsigned(std::stoull(a1)), y = unsigned(std::stoull(b1));
                a.sep();
                o << '[' << int(g.genDoesElementExist(x, y, r != 0)) << ',' << int(g.genIsElementOptional(x, y, r != 0)) << ',' << int(g.genIsElementDeprecated(y)) << ']';
            }
        }
        if (ok) {
            j.k("vopt"); J a(o, '[');
            for (auto* m : g.genGetAllMessagesIdSorted()) for (auto& f : m->genFields()) vopt(g, *f, a, o);
        }
        if (ok) {
            j.k("sorted"); J a(o, '[');
            for (auto* m : g.genGetAllMessagesIdSorted()) { a.sep(); o << '[' << q(m->genParseObj().parseExternalRef()) << ",\"" << m->genParseObj().parseId() << "\",\"" << m->genParseObj().parseOrder() << "\"]"; }
        }
    }
    return o.str();
}

// P <namespace option|-> <top namespace|-> <current schema|->\x1f<xml>[\x1e<xml>...]
using Trail = std::vector<std::pair<char, std::string>>;

static void place(const gen::GenElem& e, const gen::GenGenerator& g, const Trail& t, J& a, std::ostringstream& o)
{
    namespace c = gen::comms;
    a.sep();
    J j(o);
    j.k("path"); { J p(o, '['); for (auto& x : t) { p.sep(); o << q(std::string(1, x.first) + x.second); } }
    j.k("scope"); { J p(o, '['); for (int m = 0; m < 2; ++m) for (int w = 0; w < 2; ++w) { p.sep(); o << q(c::genScopeFor(e, g, m != 0, w != 0)); } }
    j.k("common"); { J p(o, '['); for (int m = 0; m < 2; ++m) for (int w = 0; w < 2; ++w) { p.sep(); o << q(c::genCommonScopeFor(e, g, m != 0, w != 0)); } }
    j.k("rel"); { J p(o, '['); for (int m = 0; m < 2; ++m) { p.sep(); o << q(c::genRelHeaderPathFor(e, g, m != 0)); p.sep(); o << q(c::genRelSourcePathFor(e, g, m != 0)); } p.sep(); o << q(c::genRelCommonHeaderPathFor(e, g)); }
    j.k("abs"); { J p(o, '['); for (auto& x : {c::genHeaderPathFor(e, g), c::genSourcePathFor(e, g), c::genCommonHeaderPathFor(e, g), c::genInputCodeRelPathFor(e, g), c::genInputCodeAbsPathFor(e, g)}) { p.sep(); o << q(x); } }
    j.s("full", c::genFullNameFor(e));
    j.s("begin", c::genNamespaceBeginFor(e, g)); j.s("end", c::genNamespaceEndFor(e, g));
}

static void placeField(const gen::GenField& f, const gen::GenGenerator& g, Trail t, J& a, std::ostringstream& o)
{
    t.emplace_back('F', f.genParseObj().parseName());
    place(f, g, t, a, o);
    auto all = [&](auto& l) { for (auto& m : l) placeField(*m, g, t, a, o); };
    if (auto* p = dynamic_cast<const gen::GenBundleField*>(&f)) all(p->genMembers());
    if (auto* p = dynamic_cast<const gen::GenBitfieldField*>(&f)) all(p->genMembers());
    if (auto* p = dynamic_cast<const gen::GenVariantField*>(&f)) all(p->genMembers());
    if (auto* p = dynamic_cast<const gen::GenOptionalField*>(&f)) if (auto* m = p->genMemberField()) placeField(*m, g, t, a, o);
    if (auto* p = dynamic_cast<const gen::GenListField*>(&f)) for (auto* m : {p->genMemberElementField(), p->genMemberCountPrefixField(), p->genMemberLengthPrefixField()}) if (m) placeField(*m, g, t, a, o);
}

static void placeNs(const gen::GenNamespace& n, const gen::GenGenerator& g, Trail t, J& a, std::ostringstream& o)
{
    namespace c = gen::comms;
    t.emplace_back('N', n.genName());
    place(n, g, t, a, o);
    a.sep();
    {
        J j(o);
        j.k("nspath"); { J p(o, '['); for (auto& x : t) { p.sep(); o << q(std::string(1, x.first) + x.second); } }
        const std::string X("Some");
        j.k("named"); J p(o, '[');
        auto put1 = [&](const std::string& v) { p.sep(); o << q(v); };
        for (int m = 0; m < 2; ++m) for (int w = 0; w < 2; ++w) {
            put1(c::genScopeForOptions(X, g, m != 0, w != 0)); put1(c::genScopeForRoot(X, g, m != 0, w != 0)); put1(c::genScopeForChecksum(X, g, m != 0, w != 0));
            put1(c::genScopeForInput(X, g, n, m != 0, w != 0)); put1(c::genScopeForFactory(X, g, n, m != 0, w != 0)); put1(c::genScopeForDispatch(X, g, n, m != 0, w != 0));
            put1(c::genScopeForNamespaceMember(X, g, n, m != 0, w != 0));
        }
        for (auto& v : {c::genHeaderPathForField(X, g), c::genHeaderPathForInput(X, g, n), c::genHeaderPathForOptions(X, g), c::genHeaderPathForDispatch(X, g, n), c::genHeaderPathForFactory(X, g, n),
                c::genHeaderPathForMsgId(X, g, n), c::genHeaderPathForNamespaceMember(X, g, n), c::genHeaderPathRoot(X, g), c::genSourcePathRoot(X, g), c::genPathForDoc(X, g),
                c::genInputCodeRelPathForRoot(X, g), c::genInputCodeRelPathForOptions(X, g), c::genInputCodeRelPathForInput(X, g, n), c::genInputCodeRelPathForFactory(X, g, n),
                c::genRelHeaderForLayer(X, g), c::genRelHeaderForChecksum(X, g)}) put1(v);
    }
    for (auto& x : n.genFields()) placeField(*x, g, t, a, o);
    for (auto& x : n.genInterfaces()) { auto t2 = t; t2.emplace_back('I', x->genName()); place(*x, g, t2, a, o); for (auto& f : x->genFields()) placeField(*f, g, t2, a, o); }
    for (auto& x : n.genMessages()) { auto t2 = t; t2.emplace_back('M', x->genName()); place(*x, g, t2, a, o); for (auto& f : x->genFields()) placeField(*f, g, t2, a, o); }
    for (auto& x : n.genFrames()) {
        auto t2 = t; t2.emplace_back('R', x->genName()); place(*x, g, t2, a, o);
        for (auto& l : x->genLayers()) { auto t3 = t2; t3.emplace_back('L', l->genName()); place(*l, g, t3, a, o); if (auto* m = l->genMemberField()) placeField(*m, g, t3, a, o); }
    }
    for (auto& x : n.genNamespaces()) placeNs(*x, g, t, a, o);
}

static std::string cmdPlaces(const std::string& data)
{
    auto parts = split(data, '\x1f');
    std::istringstream h(parts.at(0));
    std::string nsopt, top, cur;
    h >> nsopt >> top >> cur;
    std::vector<std::string> paths;
    int i = 0;
    for (auto& x : split(parts.at(1), '\x1e')) paths.push_back(put(x, i++));
    std::ostringstream o;
    {
        J j(o);
        Gen g;
        if (nsopt != "-") g.genSetNamespaceOverride(nsopt);
        if (top != "-") g.genSetTopNamespace(top);
        g.genSetMultipleSchemasEnabled(true);
        g.genSetOutputDir("/out");
        g.genSetCodeDir("/code");
        bool ok = g.genPrepare(paths);
        for (auto& p : paths) unlink(p.c_str());
        j.b("ok", ok);
        if (ok) {
            if (cur != "-") g.genChooseCurrentSchema(unsigned(std::stoul(cur)));
            j.s("current", g.genCurrentSchema().genSchemaName());
            j.k("places"); J a(o, '[');
            for (auto& s : g.genSchemas()) {
                Trail t; t.emplace_back('S', s->genSchemaName());
                for (auto& n : s->genNamespaces()) placeNs(*n, g, t, a, o);
            }
        }
    }
    return o.str();
}

static std::string unhex(const std::string& s) { std::string r; for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16)); return r; }

static std::string cmdUtil(const std::string& data)
{
    // one call per line: name args...; strings are hex encoded with a leading 'x'
    std::istringstream in(data);
    std::string line;
    std::ostringstream o;
    namespace u = gen::util;
    {
        J a(o, '[');
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string fn; ls >> fn;
            auto S = [&]() { std::string t; ls >> t; return unhex(t.substr(1)); };
            auto I = [&]() { std::string t; ls >> t; return std::intmax_t(std::stoll(t)); };
            auto U = [&]() { std::string t; ls >> t; return std::uintmax_t(std::stoull(t)); };
            a.sep();
            if (fn == "i2s") o << q(u::genNumToString(I()));
            else if (fn == "u2s") { auto v = U(); auto w = unsigned(U()); o << q(u::genNumToString(v, w)); }
            else if (fn == "i2sh") o << q(u::genNumToStringWithHexComment(I()));
            else if (fn == "n2s") { auto v = unsigned(U()); auto w = unsigned(U()); o << q(u::genNumToString(v, w)); }
            else if (fn == "b2s") o << q(u::genBoolToString(U() != 0));
            else if (fn == "s2u") o << u::genStrToUnsigned(S());
            else if (fn == "name") o << q(u::genStrToName(S()));
            else if (fn == "macro") o << q(u::genStrToMacroName(S()));
            else if (fn == "upper") o << q(u::genStrToUpper(S()));
            else if (fn == "lower") o << q(u::genStrToLower(S()));
            else if (fn == "starts") { auto x = S(); auto y = S(); o << int(u::genStrStartsWith(x, y)); }
            else if (fn == "ends") { auto x = S(); auto y = S(); o << int(u::genStrEndsWith(x, y)); }
            else if (fn == "replace") { auto x = S(); auto y = S(); auto z = S(); o << q(u::genStrReplace(x, y, z)); }
            else if (fn == "split") { auto x = S(); auto y = S(); int c = int(U()); J l(o, '['); for (auto& e : u::genStrSplit(x, y, c != 0)) { l.sep(); o << q(e); } }
            else if (fn == "splitany") { auto x = S(); auto y = S(); int c = int(U()); J l(o, '['); for (auto& e : u::genStrSplitByAnyChar(x, y, c != 0)) { l.sep(); o << q(e); } }
            else if (fn == "pathadd") { auto x = S(); auto y = S(); o << q(u::genPathAddElem(x, y)); }
            else if (fn == "pathup") o << q(u::genPathUp(S()));
            else if (fn == "relpath") o << q(u::genScopeToRelPath(S()));
            else if (fn == "namens") o << q(u::genNameToNs(S()));
            else if (fn == "cls") o << q(gen::comms::genClassName(S()));
            else if (fn == "acc") o << q(gen::comms::genAccessName(S()));
            else if (fn == "addlen") { auto x = U(); auto y = U(); o << '"' << gen::comms::genAddLength(x, y) << '"'; }
            else if (fn == "inttype") { auto t = int(U()); auto l = U(); o << q(gen::comms::genCppIntTypeFor(static_cast<ParseIntField::ParseType>(t), l)); }
            else if (fn == "intctype") { auto t = int(U()); auto l = U(); o << q(gen::comms::genCppIntChangedSignTypeFor(static_cast<ParseIntField::ParseType>(t), l)); }
            else if (fn == "tmpl") {
                auto t = S(); int tidy = int(U()); auto n = U(); u::GenReplacementMap m;
                while (n-- > 0) { auto k = S(); m[k] = S(); }
                o << q(u::genProcessTemplate(t, m, tidy != 0));
            }
            else if (fn == "wrap") { auto x = S(); auto l = unsigned(U()); int d = int(U()); o << q(u::genStrMakeMultiline(x, l, d != 0)); }
            else if (fn == "indent") o << q(u::genStrInsertIndent(S()));
            else if (fn == "join") { auto x = S(); auto y = S(); auto n = U(); u::GenStringsList l; while (n-- > 0) l.push_back(S()); o << q(u::genStrListToString(l, x, y)); }
            else if (fn == "addlist") { auto n = U(); u::GenStringsList l; while (n-- > 0) { auto e = S(); if (n & 1) u::genAddToStrList(e, l); else u::genAddToStrList(std::string(e), l); } J j(o, '['); for (auto& e : l) { j.sep(); o << q(e); } }
            else if (fn == "display") { auto x = S(); auto y = S(); o << q(u::genDisplayName(x, y)); }
            else o << "null";
        }
    }
    return o.str();
}

int main(int argc, char** argv)
{
    g_tmp = argc > 1 ? argv[1] : "/tmp";
    std::ios::sync_with_stdio(false);
    char kind; std::size_t len;
    while (std::cin >> kind >> len) {
        std::cin.get();
        std::string data(len, '\0');
        std::cin.read(&data[0], std::streamsize(len));
        int fd[2];
        if (pipe(fd) != 0) return 2;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            int e = open((g_tmp + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(e, 2); dup2(e, 1);
            alarm(20);
            std::string r;
            try {
                if (kind == 'S') r = cmdSchema(data);
                else if (kind == 'V') r = cmdVersion(data);
                else if (kind == 'P') r = cmdPlaces(data);
                else if (kind == 'U') r = cmdUtil(data);
                else r = "null";
            } catch (const std::exception& ex) {
                r = std::string("{\"exception\":") + q(ex.what()) + "}";
            }
            std::size_t p = 0;
            while (p < r.size()) { auto n = write(fd[1], r.data() + p, r.size() - p); if (n <= 0) break; p += std::size_t(n); }
            _exit(0);
        }
        close(fd[1]);
        std::string r; char buf[65536]; ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, std::size_t(n));
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            std::ifstream es(g_tmp + "/stderr");
            std::string t((std::istreambuf_iterator<char>(es)), std::istreambuf_iterator<char>());
            // a crashed child may have left its input behind
            for (int i = 0; i < 4; ++i) unlink((g_tmp + "/s" + std::to_string(pid) + "_" + std::to_string(i) + ".xml").c_str());
            std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
            r = "{\"crash\":" + q(why + ": " + t.substr(0, 400)) + "}";
        }
        for (auto& c : r) if (c == '\n') c = ' ';
        std::cout << r << "\n" << std::flush;
    }
    return 0;
}
