// Test driver: one JSON request per line on stdin, one JSON response per line on stdout.
// A request is a whole case (a fresh parser plus a sequence of operations on it), so that every case is a pure
// function of the request.  Only the public parser API (the one the unit tests, the language server and the C
// wrapper use) is touched.  Byte strings travel as code points 0..255.
#include "stdafx.h"

#include <sys/time.h>

#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <boost/variant.hpp>

#include <fanuc/AllAttributesParser.h>
#include <fanuc/AllAttributesParserWrapper.h>
#include <heidenhain/AllAttributesParser.h>
#include <heidenhain/AllAttributesParserWrapper.h>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/allocator_interface.h>
#define HEAP_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#define HEAP_BYTES() size_t(0)
#endif

using namespace parser;
using V = rapidjson::Value;
using W = rapidjson::Writer<rapidjson::StringBuffer, rapidjson::UTF8<>, rapidjson::ASCII<>,
                            rapidjson::CrtAllocator, rapidjson::kWriteNanAndInfFlag>;

static std::string bytes(const V& v)
{
    std::string out;
    const unsigned char* p = reinterpret_cast<const unsigned char*>(v.GetString());
    const unsigned char* e = p + v.GetStringLength();
    while (p < e)
    {
        if (*p < 0x80)
            out.push_back(static_cast<char>(*p++));
        else
        {
            out.push_back(static_cast<char>(((*p & 0x1f) << 6) | (p[1] & 0x3f)));
            p += 2;
        }
    }
    return out;
}

static void put(W& w, const std::string& s)
{
    std::string u;
    for (unsigned char c : s)
    {
        if (c < 0x80)
            u.push_back(static_cast<char>(c));
        else
        {
            u.push_back(static_cast<char>(0xc0 | (c >> 6)));
            u.push_back(static_cast<char>(0x80 | (c & 0x3f)));
        }
    }
    w.String(u.data(), static_cast<rapidjson::SizeType>(u.size()));
}

struct GrammarDef
{
    fanuc::word_map          metric, imperial;
    std::vector<std::string> ops;
    fanuc::code_groups_map   gg, mg;
};

static std::map<std::string, GrammarDef> grammars;

static fanuc::word_map read_words(const V& v)
{
    fanuc::word_map m;
    for (auto& it : v.GetObject())
    {
        const auto& a = it.value;
        m[bytes(it.name)] = {bytes(a[0]),     a[1].GetInt(),  a[2].GetInt(),
                             a[3].GetUint(),  a[4].GetUint(), a[5].GetBool(),
                             static_cast<fanuc::WordType>(a[6].GetInt())};
    }
    return m;
}

static fanuc::code_groups_map read_groups(const V& v)
{
    fanuc::code_groups_map m;
    for (auto& it : v.GetObject())
        for (auto& e : it.value.GetArray())
            m[fanuc::CodeGroupValue{e[0].GetUint(), e[1].GetUint()}].insert(bytes(it.name));
    return m;
}

static ParserSettings read_settings(const V& v)
{
    return {v[0].GetBool(), v[1].GetBool(), v[2].GetBool(), v[3].GetBool(), v[4].GetBool()};
}

static std::map<std::string, double> read_point(const V& v)
{
    std::map<std::string, double> m;
    for (auto& it : v.GetObject())
        m[bytes(it.name)] = it.value.GetDouble();
    return m;
}

struct NC
{
    EMachineTool      mt;
    EMachineToolType  mtt;
    MachinePointsData mpd;
    Kinematics        kin;
    CncDefaultValues  def;
    ZeroPoint         zp;
};

static NC read_nc(const V& v)
{
    NC nc{};
    nc.mt                      = static_cast<EMachineTool>(v["mt"].GetInt());
    nc.mtt                     = static_cast<EMachineToolType>(v["mtt"].GetInt());
    nc.mpd.tool_exchange_point = read_point(v["tool"]);
    nc.mpd.machine_base_point  = read_point(v["base"]);
    for (auto& it : v["axes"].GetObject())
        nc.kin.cartesian_system_axis[bytes(it.name)] = {it.value[0].GetDouble(), it.value[1].GetDouble()};
    nc.kin.max_working_feed                  = v["mwf"].GetDouble();
    nc.kin.max_fast_feed                     = v["mff"].GetDouble();
    nc.kin.maximum_spindle_speed             = v["mss"].GetInt();
    nc.kin.numer_of_items_in_the_warehouse   = v["items"].GetInt();
    nc.kin.tool_exchange_time                = v["tet"].GetInt();
    nc.kin.pallet_exchange_time              = v["pet"].GetInt();
    nc.kin.tool_measurement_time             = v["tmt"].GetInt();
    nc.kin.diameter_programming_2x           = v["dia"].GetBool();
    nc.kin.auto_measure_after_tool_selection = v["ameas"].GetBool();
    nc.kin.pallet_exchange_code              = bytes(v["pec"][0]);
    nc.kin.pallet_exchange_code_value        = bytes(v["pec"][1]);
    nc.kin.tool_measurement_code             = bytes(v["tmc"][0]);
    nc.kin.tool_measurement_code_value       = bytes(v["tmc"][1]);
    const auto& d                            = v["def"];
    nc.def = {static_cast<EMotion>(d["motion"].GetInt()),
              static_cast<EWorkPlane>(d["plane"].GetInt()),
              static_cast<EDriverUnits>(d["units"].GetInt()),
              static_cast<EProgrammingType>(d["prog"].GetInt()),
              static_cast<EFeedMode>(d["feed"].GetInt()),
              static_cast<ERotationDirection>(d["rotdir"].GetInt()),
              static_cast<EDepthProgrammingType>(d["depth"].GetInt()),
              static_cast<EDrillGreturnMode>(d["ret"].GetInt()),
              d["rot"].GetInt(),
              d["c0"].GetBool(),
              d["c1"].GetBool(),
              d["c2"].GetBool(),
              d["c3"].GetBool(),
              d["c80rapid"].GetBool(),
              d["oprot"].GetBool(),
              d["texch"].GetBool(),
              d["autorapid"].GetBool()};
    nc.zp  = {v["zp"][0].GetDouble(), v["zp"][1].GetDouble(), v["zp"][2].GetDouble()};
    return nc;
}

static RenumberSettings read_renumber(const V& v)
{
    return {bytes(v["word"]),     v["step"].GetUint(),      v["freq"].GetUint(),
            v["max"].GetUint(),   v["existing"].GetBool(), v["zeros"].GetBool()};
}

static FileSplitting read_split(const V& v)
{
    return {static_cast<FileSplittingType>(v["type"].GetInt()),
            v["step"].GetInt(),
            v["time"].GetInt(),
            v["path"].GetInt(),
            bytes(v["text"]),
            v["rapid"].GetBool(),
            bytes(v["retr"])};
}

// token: [kind, word, fields...]
class TokenVisitor : public boost::static_visitor<>
{
public:
    explicit TokenVisitor(W& w)
        : w(w)
    {
    }
    void operator()(const fanuc::DecimalAttributeData& d) const
    {
        w.StartArray();
        w.String("D");
        put(w, d.word);
        opt(d.assign);
        opt(d.sign);
        opt(d.open_bracket);
        opt(d.macro);
        opt(d.value);
        opt(d.dot);
        opt(d.value2);
        opt(d.close_bracket);
        w.EndArray();
    }
    void operator()(const fanuc::StringAttributeData& d) const
    {
        w.StartArray();
        w.String("S");
        put(w, d.word);
        put(w, d.value);
        w.EndArray();
    }
    void operator()(const fanuc::CharAttributeData& d) const
    {
        w.StartArray();
        w.String("C");
        put(w, d.word);
        put(w, std::string(1, d.value));
        w.EndArray();
    }

private:
    void opt(const boost::optional<char>& o) const
    {
        if (o)
            put(w, std::string(1, *o));
        else
            w.Null();
    }
    void opt(const boost::optional<std::string>& o) const
    {
        if (o)
            put(w, *o);
        else
            w.Null();
    }
    W& w;
};

static void put_tokens(W& w, const std::vector<fanuc::AttributeVariant>& v)
{
    w.StartArray();
    for (auto& a : v)
        boost::apply_visitor(TokenVisitor(w), a);
    w.EndArray();
}

static void put_pr(W& w, const PathResult& r)
{
    w.StartArray();
    w.Double(r.total);
    w.Double(r.work_motion);
    w.Double(r.fast_motion);
    w.Double(r.tool_total);
    put(w, r.tool_id);
    w.Double(r.cycle_distance.first);
    w.Double(r.cycle_distance.second);
    w.Uint(r.hole_number);
    w.EndArray();
}

static void put_tr(W& w, const TimeResult& r)
{
    w.StartArray();
    w.Double(r.total);
    w.Double(r.work_motion);
    w.Double(r.fast_motion);
    w.Double(r.tool_total);
    put(w, r.tool_id);
    w.EndArray();
}

struct Want
{
    bool tok{}, pr{}, mac{}, wr{};
};

static void put_mac(W& w, const fanuc::macro_map& mm)
{
    w.StartArray();
    for (auto& it : mm)
    {
        w.StartArray();
        w.Uint(it.first.id);
        w.Int(it.first.line);
        w.Double(it.second);
        w.EndArray();
    }
    w.EndArray();
}

static void put_wr(W& w, const fanuc::word_range_map& m)
{
    w.StartObject();
    for (auto& it : m)
    {
        w.Key(it.first.c_str());
        w.StartArray();
        w.Double(std::get<0>(it.second));
        w.Double(std::get<1>(it.second));
        w.Double(std::get<2>(it.second));
        w.EndArray();
    }
    w.EndObject();
}

static std::string op_name(const V& op)
{
    return op[0].GetString();
}

// ---------------------------------------------------------------------------------------------------------- C++ API
static void run_cpp_op(W& w, fanuc::AllAttributesParser& p, const V& op, bool sl, const Want& want)
{
    const std::string         name = op_name(op);
    std::string               msg;
    fanuc::FanucAttributeData av;
    bool                      ok = true;
    if (name == "parse")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), av, msg, sl);
    else if (name == "parse0")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), msg, sl);
    else if (name == "parseS")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), av, msg, sl, read_settings(op[3]));
    else if (name == "set")
        p.set_parser_settings(read_settings(op[1]));
    else if (name == "nc")
    {
        NC nc = read_nc(op[1]);
        p.set_ncsettings(nc.mt, nc.mtt, std::move(nc.mpd), std::move(nc.kin), std::move(nc.def), std::move(nc.zp));
    }
    else if (name == "resetmac")
        p.reset_macro_values(op.Size() > 1 ? op[1].GetBool() : true);
    else if (name == "resetpath")
        p.reset_attributes_path_calculator();
    else if (name == "convert")
        ok = p.convert_length(op[1].GetInt(), bytes(op[2]), av, msg, sl,
                              static_cast<UnitConversionType>(op[3].GetInt()));
    else if (name == "rotate")
        ok = p.rotate_axes(op[1].GetInt(), bytes(op[2]), av, msg, sl, static_cast<AxesRotatingOption>(op[3].GetInt()));
    else if (name == "renumber")
        ok = p.renumber(op[1].GetInt(), bytes(op[2]), av, msg, sl, read_renumber(op[3]));
    else if (name == "rstart")
        p.set_renumber_start_value(op[1].GetUint());
    else if (name == "rreset")
        p.renumber_reset();
    else if (name == "rmnum")
        ok = p.remove_numbering(op[1].GetInt(), bytes(op[2]), av, msg, sl);
    else if (name == "rmcom")
        ok = p.remove_comment(op[1].GetInt(), bytes(op[2]), av, msg, sl);
    else if (name == "rmopt")
        ok = p.remove_optional_block(op[1].GetInt(), bytes(op[2]), av, msg, sl);
    else if (name == "split")
    {
        std::vector<std::string> data;
        for (auto& l : op[1].GetArray())
            data.push_back(bytes(l));
        std::vector<std::vector<std::vector<fanuc::AttributeVariant>>> out;
        ok = p.split_file(std::move(data), out, msg, sl, read_split(op[2]));
        w.Key("split");
        w.StartArray();
        for (auto& part : out)
        {
            w.StartArray();
            for (auto& l : part)
                put_tokens(w, l);
            w.EndArray();
        }
        w.EndArray();
    }
    else if (name == "unit")
    {
        w.Key("unit");
        w.Int(static_cast<int>(p.get_unit_system()));
    }
    else if (name != "state")
    {
        fprintf(stderr, "driver: unknown op %s\n", name.c_str());
        _exit(97);
    }
    w.Key("ok");
    w.Bool(ok);
    w.Key("msg");
    put(w, msg);
    if (want.tok)
    {
        w.Key("tok");
        put_tokens(w, av.value);
    }
    if (want.pr || name == "state")
    {
        w.Key("pr");
        put_pr(w, p.get_path_result());
        w.Key("tr");
        put_tr(w, p.get_time_result());
    }
    if (want.mac || name == "state")
    {
        w.Key("mac");
        put_mac(w, p.get_macro_values());
    }
    if (want.wr || name == "state")
    {
        w.Key("wr");
        put_wr(w, p.get_word_range());
    }
}

// ------------------------------------------------------------------------------------------------------------ C API
struct CStr
{
    std::vector<std::unique_ptr<char[]>> keep;
    char*                                operator()(const std::string& s)
    {
        auto p = std::make_unique<char[]>(s.size() + 1);
        memcpy(p.get(), s.c_str(), s.size() + 1);
        keep.push_back(std::move(p));
        return keep.back().get();
    }
};

static AllAttributesParserWrapperBase* make_c(const GrammarDef& g, const ParserSettings& ps, const OtherSettings& os,
                                              EFanucParserType pt, bool nonc)
{
    CStr                                   cs;
    std::vector<const char*>               mk, ik, ops, ggk, mgk;
    std::vector<fanuc::WordGrammarWrapper> mv, iv;
    auto                                   add = [&](const fanuc::word_map& m, auto& k, auto& v) {
        for (auto& it : m)
        {
            k.push_back(cs(it.first));
            v.push_back({cs(it.second.word), it.second.range_from, it.second.range_to, it.second.decimal_from,
                         it.second.decimal_to, it.second.unique, it.second.word_type});
        }
    };
    add(g.metric, mk, mv);
    add(g.imperial, ik, iv);
    for (auto& o : g.ops)
        ops.push_back(cs(o));
    auto groups = [&](const fanuc::code_groups_map& m, auto& keys, auto& vals, auto& lens) {
        std::map<std::string, std::vector<fanuc::CodeGroupValue>> inv;
        for (auto& it : m)
            for (auto& s : it.second)
                inv[s].push_back(it.first);
        for (auto& it : inv)
        {
            keys.push_back(cs(it.first));
            lens.push_back(static_cast<int>(it.second.size()));
            vals.insert(vals.end(), it.second.begin(), it.second.end());
        }
    };
    std::vector<fanuc::CodeGroupValue> ggv, mgv;
    std::vector<int>                   ggl, mgl;
    groups(g.gg, ggk, ggv, ggl);
    groups(g.mg, mgk, mgv, mgl);
    return fanuc::CreateFanucAllAttributesParser(
        mk.data(), mv.data(), static_cast<int>(mk.size()), ik.data(), iv.data(), static_cast<int>(ik.size()),
        ops.data(), static_cast<int>(ops.size()), ggk.data(), ggv.data(), static_cast<int>(ggk.size()), ggl.data(),
        mgk.data(), mgv.data(), static_cast<int>(mgk.size()), mgl.data(), &ps, &os, pt, nonc);
}

static void c_set_nc(AllAttributesParserWrapperBase* p, const NC& nc)
{
    CStr                               cs;
    std::vector<char*>                 bk, tk;
    std::vector<double>                bv, tv;
    std::vector<AxisParametersWrapper> ax;
    for (auto& it : nc.mpd.machine_base_point)
    {
        bk.push_back(cs(it.first));
        bv.push_back(it.second);
    }
    for (auto& it : nc.mpd.tool_exchange_point)
    {
        tk.push_back(cs(it.first));
        tv.push_back(it.second);
    }
    for (auto& it : nc.kin.cartesian_system_axis)
        ax.push_back({cs(it.first), it.second.range_min, it.second.range_max});
    KinematicsWrapper k{nc.kin.max_working_feed,
                        nc.kin.max_fast_feed,
                        nc.kin.maximum_spindle_speed,
                        nc.kin.numer_of_items_in_the_warehouse,
                        nc.kin.tool_exchange_time,
                        nc.kin.pallet_exchange_time,
                        nc.kin.tool_measurement_time,
                        nc.kin.diameter_programming_2x,
                        nc.kin.auto_measure_after_tool_selection,
                        cs(nc.kin.pallet_exchange_code),
                        cs(nc.kin.pallet_exchange_code_value),
                        cs(nc.kin.tool_measurement_code),
                        cs(nc.kin.tool_measurement_code_value)};
    CncDefaultValues  def = nc.def;
    ZeroPoint         zp  = nc.zp;
    SetNCSettings(p, nc.mt, nc.mtt, bk.data(), bv.data(), static_cast<int>(bk.size()), tk.data(), tv.data(),
                  static_cast<int>(tk.size()), &k, ax.data(), static_cast<int>(ax.size()), &def, &zp);
}

static void run_c_op(W& w, AllAttributesParserWrapperBase* p, const V& op, bool sl, const Want& want)
{
    const std::string name = op_name(op);
    CStr              cs;
    char*             msg    = nullptr;
    WordValueWrapper* value  = nullptr;
    int               length = 0;
    bool              ok     = true;
    if (name == "parse")
        ok = ParseValue(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl);
    else if (name == "parse0")
        ok = Parse(p, op[1].GetInt(), cs(bytes(op[2])), &msg, sl);
    else if (name == "set")
    {
        auto s = read_settings(op[1]);
        SetParserSettings(p, &s);
    }
    else if (name == "nc")
        c_set_nc(p, read_nc(op[1]));
    else if (name == "resetmac")
        ResetMacroValues(p);
    else if (name == "resetpath")
        ResetPathValues(p);
    else if (name == "convert")
        ok = ConvertLength(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl,
                           static_cast<UnitConversionType>(op[3].GetInt()));
    else if (name == "rotate")
        ok = RotateAxes(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl,
                        static_cast<AxesRotatingOption>(op[3].GetInt()));
    else if (name == "renumber")
    {
        auto                    r = read_renumber(op[3]);
        RenumberSettingsWrapper rs{cs(r.word), r.step, r.frequency, r.max_number, r.existing_only, r.leading_zeroes};
        ok = Renumber(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl, &rs);
    }
    else if (name == "rstart")
        SetRenumberStartValue(p, op[1].GetUint());
    else if (name == "rreset")
        RenumberReset(p);
    else if (name == "rmnum")
        ok = RemoveNumbering(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl);
    else if (name == "rmcom")
        ok = RemoveComment(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl);
    else if (name == "rmopt")
        ok = RemoveOptionalBlock(p, op[1].GetInt(), cs(bytes(op[2])), &value, &length, &msg, sl);
    else if (name == "split" || name == "splitstr")
    {
        std::vector<const char*> data;
        for (auto& l : op[1].GetArray())
            data.push_back(cs(bytes(l)));
        auto                 f = read_split(op[2]);
        FileSplittingWrapper fsw{f.type, f.step, f.time, f.path, cs(f.text), f.rapid_traverse_only,
                                 cs(f.retraction_plane)};
        if (name == "split")
        {
            int *vvl = nullptr, *vl = nullptr;
            WordValueWrapper* val = nullptr;
            int               len = 0;
            ok = SplitFile(p, &fsw, data.data(), static_cast<int>(data.size()), &val, &vvl, &vl, &len, &msg, sl);
            w.Key("split");
            w.StartArray();
            int               li = 0;
            WordValueWrapper* t  = val;
            for (int x = 0; x < len; ++x)
            {
                w.StartArray();
                for (int y = 0; y < vl[x]; ++y, ++li)
                {
                    w.StartArray();
                    for (int z = 0; z < vvl[li]; ++z, ++t)
                    {
                        w.StartArray();
                        put(w, t->word);
                        put(w, t->value);
                        w.EndArray();
                    }
                    w.EndArray();
                }
                w.EndArray();
            }
            w.EndArray();
            DisposeSplitFile(val, vvl, vl, len);
        }
        else
        {
            char** val = nullptr;
            int    len = 0;
            ok = SplitFileString(p, &fsw, data.data(), static_cast<int>(data.size()), &val, &len, &msg, sl);
            w.Key("splitstr");
            w.StartArray();
            for (int x = 0; x < len; ++x)
            {
                if (val[x])
                    put(w, val[x]);
                else
                    w.Null();
            }
            w.EndArray();
            DisposeSplitFileString(val, len);
        }
    }
    else if (name == "linemac")
    {
        int *   ids = nullptr;
        double* vals = nullptr;
        int     len = 77; // set by the call
        GetLineMacroValues(p, op[1].GetInt(), &ids, &vals, &len);
        w.Key("linemac");
        w.StartArray();
        if (len != 0 && !ids)
        {
            w.Int(len);
            len = 0;
        }
        for (int x = 0; x < len; ++x)
        {
            w.StartArray();
            w.Int(ids[x]);
            w.Double(vals[x]);
            w.EndArray();
        }
        w.EndArray();
        DisposeMacroValues(ids, nullptr, vals);
    }
    else if (name != "state")
    {
        fprintf(stderr, "driver: unknown op %s\n", name.c_str());
        _exit(97);
    }
    w.Key("ok");
    w.Bool(ok);
    w.Key("msg");
    put(w, msg ? msg : "");
    if (want.tok)
    {
        w.Key("tok");
        w.StartArray();
        for (int x = 0; x < length; ++x)
        {
            w.StartArray();
            put(w, value[x].word);
            put(w, value[x].value);
            w.EndArray();
        }
        w.EndArray();
    }
    if (value)
        DisposeWordValueWrapper(value, length);
    if (msg)
        DisposeCharArray(msg);
    if (want.pr || want.wr || name == "state")
    {
        PathResultWrapper* pr = nullptr;
        TimeResultWrapper* tr = nullptr;
        WordResultRange*   wr = nullptr;
        int                len = 0, unit = 0;
        GetPathValues(p, pr, tr, &wr, &len, &unit);
        w.Key("pr");
        w.StartArray();
        w.Double(pr->total);
        w.Double(pr->work_motion);
        w.Double(pr->fast_motion);
        w.Double(pr->tool_total);
        put(w, pr->tool_id);
        w.EndArray();
        w.Key("tr");
        w.StartArray();
        w.Double(tr->total);
        w.Double(tr->work_motion);
        w.Double(tr->fast_motion);
        w.Double(tr->tool_total);
        put(w, tr->tool_id);
        w.EndArray();
        w.Key("wr");
        w.StartObject();
        for (int x = 0; x < len; ++x)
        {
            w.Key(wr[x].word);
            w.StartArray();
            w.Double(wr[x].value_min);
            w.Double(wr[x].value);
            w.Double(wr[x].value_max);
            w.EndArray();
        }
        w.EndObject();
        w.Key("unit");
        w.Int(unit);
        DisposePathValues(pr, tr, wr, len);
    }
    if (want.mac || name == "state")
    {
        int *   ids = nullptr, *lines = nullptr;
        double* vals = nullptr;
        int     len = 77; // set by the call
        GetMacroValues(p, &ids, &lines, &vals, &len);
        w.Key("mac");
        w.StartArray();
        if (len != 0 && !ids)
        {
            w.Int(len);
            len = 0;
        }
        for (int x = 0; x < len; ++x)
        {
            w.StartArray();
            w.Uint(static_cast<unsigned>(ids[x]));
            w.Int(lines[x]);
            w.Double(vals[x]);
            w.EndArray();
        }
        w.EndArray();
        DisposeMacroValues(ids, lines, vals);
    }
}

// ------------------------------------------------------------------------------------------------------- Heidenhain
class HHVisitor : public boost::static_visitor<>
{
public:
    explicit HHVisitor(W& w)
        : w(w)
    {
    }
    void operator()(const heidenhain::LineNumberData& d) const
    {
        head("N", d);
        w.Uint(d.value);
        w.EndArray();
    }
    void operator()(const heidenhain::CommentData& d) const
    {
        head(";", d);
        put(w, std::string(1, d.semicolon));
        put(w, d.value);
        put(w, d.tilde ? std::string(1, d.tilde) : "");
        w.EndArray();
    }
    void operator()(const heidenhain::ProgramBeginEndData& d) const
    {
        head("P", d);
        w.Int(static_cast<int>(d.begin_end));
        put(w, d.name);
        w.Int(static_cast<int>(d.unit));
        w.EndArray();
    }
    void operator()(const heidenhain::GeneralAttributeData& d) const
    {
        head("G", d);
        put(w, d.word);
        opt(d.sign);
        opt(d.name);
        opt(d.value);
        opt(d.dot);
        opt(d.value2);
        opt(d.tilde);
        w.EndArray();
    }
    void operator()(const heidenhain::CycleDef& d) const
    {
        head("C", d);
        put(w, d.word1);
        put(w, d.word2);
        opt(d.value);
        opt(d.dot);
        opt(d.value2);
        w.EndArray();
    }
    void operator()(const heidenhain::CycleParam& d) const
    {
        head("Q", d);
        put(w, d.name);
        w.Uint(d.id);
        put(w, std::string(1, d.assign));
        opt(d.sign);
        put(w, d.value);
        opt(d.dot);
        opt(d.value2);
        w.EndArray();
    }

private:
    template <typename T>
    void head(const char* k, const T& d) const
    {
        w.StartArray();
        w.String(k);
        std::ostringstream os;
        os << d;
        put(w, os.str());
    }
    void opt(const boost::optional<char>& o) const
    {
        if (o)
            put(w, std::string(1, *o));
        else
            w.Null();
    }
    void opt(const boost::optional<std::string>& o) const
    {
        if (o)
            put(w, *o);
        else
            w.Null();
    }
    W& w;
};

static void run_hh_op(W& w, heidenhain::AllAttributesParser& p, const V& op, bool sl)
{
    const std::string                   name = op_name(op);
    std::string                         msg;
    heidenhain::HeidenhainAttributeData av;
    bool                                ok = true;
    if (name == "parse")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), av, msg, sl);
    else if (name == "parse0")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), msg, sl);
    else if (name == "parseS")
        ok = p.parse(op[1].GetInt(), bytes(op[2]), av, msg, sl, read_settings(op[3]));
    else if (name == "set")
        p.set_parser_settings(read_settings(op[1]));
    else if (name == "nc")
    {
        auto nc = read_nc(op[1]);
        p.set_ncsettings(nc.mt, nc.mtt, std::move(nc.mpd), std::move(nc.kin), std::move(nc.def), std::move(nc.zp));
    }
    else
    {
        fprintf(stderr, "driver: unknown hh op %s\n", name.c_str());
        _exit(97);
    }
    w.Key("ok");
    w.Bool(ok);
    w.Key("msg");
    put(w, msg);
    w.Key("tok");
    w.StartArray();
    for (auto& a : av.value)
        boost::apply_visitor(HHVisitor(w), a);
    w.EndArray();
}

// ------------------------------------------------------------------------------------------------------------ enums
template <typename E>
static void enum_rt(W& w, const V& rq)
{
    if (rq.HasMember("v"))
    {
        std::ostringstream os;
        os << static_cast<E>(rq["v"].GetInt());
        put(w, os.str());
    }
    else
    {
        std::istringstream is(bytes(rq["s"]));
        E                  e{};
        is >> e;
        w.StartArray();
        w.Bool(!is.fail());
        w.Int(static_cast<int>(e));
        w.EndArray();
    }
}

static void run_enum(W& w, const V& rq)
{
    const std::string n = rq["enum"].GetString();
#define E(T)                                                                                                           \
    if (n == #T)                                                                                                       \
        return enum_rt<T>(w, rq);
    E(ECncType)
    E(EFanucParserType)
    E(EMachineToolType)
    E(EMachineTool)
    E(ELanguage)
    E(EMotion)
    E(EWorkPlane)
    E(EDriverUnits)
    E(EFeedMode)
    E(ERotationDirection)
    E(EProgrammingType)
    E(EDepthProgrammingType)
    E(EDrillGreturnMode)
    E(UnitConversionType)
    E(AxesRotatingOption)
    if (n == "WordType")
        return enum_rt<fanuc::WordType>(w, rq);
    w.Null();
}

template <typename F>
static void guarded(W& w, F f)
{
    w.StartObject();
    try
    {
        f();
    }
    catch (const std::exception& e)
    {
        w.Key("exc");
        put(w, std::string(typeid(e).name()) + ": " + e.what());
    }
    catch (...)
    {
        w.Key("exc");
        w.String("unknown exception");
    }
    w.EndObject();
}

static void run_case(W& w, const V& rq)
{
    const std::string api = rq["api"].GetString();
    Want              want;
    if (rq.HasMember("want"))
        for (auto& x : rq["want"].GetArray())
        {
            std::string s = x.GetString();
            want.tok |= s == "tok";
            want.pr |= s == "pr";
            want.mac |= s == "mac";
            want.wr |= s == "wr";
        }
    const bool     sl = rq.HasMember("sl") ? rq["sl"].GetBool() : true;
    ParserSettings ps = read_settings(rq["set"]);
    OtherSettings  os{static_cast<ELanguage>(rq.HasMember("lang") ? rq["lang"].GetInt() : 0)};
    const auto     heap0 = HEAP_BYTES();

    w.StartObject();
    w.Key("r");
    w.StartArray();
    if (api == "hh")
    {
        heidenhain::AllAttributesParser p{ParserSettings(ps), OtherSettings(os), true};
        for (auto& op : rq["ops"].GetArray())
            guarded(w, [&] { run_hh_op(w, p, op, sl); });
    }
    else if (api == "chh")
    {
        AllAttributesParserWrapperBase* p = heidenhain::CreateHeidenhainAllAttributesParser(&ps, &os, true);
        for (auto& op : rq["ops"].GetArray())
            guarded(w, [&] { run_c_op(w, p, op, sl, want); });
        DisposeAllAttributesParser(p);
    }
    else
    {
        auto it = grammars.find(rq["g"].GetString());
        if (it == grammars.end())
        {
            fprintf(stderr, "driver: unknown grammar\n");
            _exit(97);
        }
        const GrammarDef& g    = it->second;
        const auto        pt   = static_cast<EFanucParserType>(rq["pt"].GetInt());
        const bool        nonc = rq["nonc"].GetBool();
        if (api == "cpp")
        {
            fanuc::AllAttributesParser p{{g.metric, g.imperial},
                                         std::vector<std::string>(g.ops),
                                         fanuc::code_groups_map(g.gg),
                                         fanuc::code_groups_map(g.mg),
                                         ParserSettings(ps),
                                         OtherSettings(os),
                                         pt,
                                         nonc};
            for (auto& op : rq["ops"].GetArray())
                guarded(w, [&] { run_cpp_op(w, p, op, sl, want); });
        }
        else
        {
            AllAttributesParserWrapperBase* p = make_c(g, ps, os, pt, nonc);
            for (auto& op : rq["ops"].GetArray())
                guarded(w, [&] { run_c_op(w, p, op, sl, want); });
            DisposeAllAttributesParser(p);
        }
    }
    w.EndArray();
    if (rq.HasMember("heap"))
    {
        w.Key("heap");
        w.Int64(0); // the writer buffer itself grows; see heap_probe
        (void)heap0;
    }
    w.EndObject();
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    const int   cpu_limit = getenv("PBT_CPU_LIMIT") ? atoi(getenv("PBT_CPU_LIMIT")) : 30;
    while (std::getline(std::cin, line))
    {
        itimerval tv{};
        tv.it_value.tv_sec = cpu_limit; // CPU seconds of this process: a hang, whatever the load of the machine
        setitimer(ITIMER_PROF, &tv, nullptr);
        rapidjson::StringBuffer sb;
        size_t                  heap_before = 0, heap_after = 0;
        {
            rapidjson::Document d;
            d.Parse(line.c_str());
            if (d.HasParseError())
            {
                fprintf(stderr, "driver: bad request\n");
                _exit(97);
            }
            W                 w(sb);
            const std::string t = d["t"].GetString();
            if (t == "grammar")
            {
                GrammarDef g;
                g.metric   = read_words(d["metric"]);
                g.imperial = read_words(d["imperial"]);
                for (auto& o : d["ops"].GetArray())
                    g.ops.push_back(bytes(o));
                g.gg                      = read_groups(d["gg"]);
                g.mg                      = read_groups(d["mg"]);
                grammars[d["id"].GetString()] = std::move(g);
                w.Bool(true);
            }
            else if (t == "enum")
            {
                try
                {
                    run_enum(w, d);
                }
                catch (const std::exception& e)
                {
                    w.String(e.what());
                }
            }
            else if (t == "heap")
            {
                // runs the case once to warm everything up, then twice more measuring what stays allocated
                {
                    rapidjson::StringBuffer tmp;
                    W                       tw(tmp);
                    run_case(tw, d);
                }
                heap_before = HEAP_BYTES();
                {
                    rapidjson::StringBuffer tmp;
                    W                       tw(tmp);
                    run_case(tw, d);
                }
                heap_after = HEAP_BYTES();
                w.Int64(static_cast<int64_t>(heap_after) - static_cast<int64_t>(heap_before));
            }
            else
                run_case(w, d);
        }
        itimerval off{};
        setitimer(ITIMER_PROF, &off, nullptr);
        fwrite(sb.GetString(), 1, sb.GetSize(), stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
    return 0;
}
