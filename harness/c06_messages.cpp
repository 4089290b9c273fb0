// C06: messages survive serialisation unchanged, equality means equality of all fields.
#include <knp/core/messaging/message_envelope.h>
#include <knp/core/messaging/messaging.h>
#include <knp_gen_headers/message_envelope_generated.h>

#include <random>

#include "knp_gen.hpp"

using namespace kg;
namespace msg = knp::core::messaging;

static uint64_t any_u64(vp::Case &c) { return c.chance(1, 4) ? c.bits64() : c.chance(1, 5) ? ~uint64_t{0} - c.draw(3) : c.draw(1000); }
static uint32_t any_u32(vp::Case &c) { return c.chance(1, 4) ? static_cast<uint32_t>(c.bits64()) : c.chance(1, 5) ? ~uint32_t{0} - static_cast<uint32_t>(c.draw(3)) : static_cast<uint32_t>(c.draw(300)); }

static float any_float(vp::Case &c, bool finite)
{
    switch (c.draw(4))
    {
        case 0:
            return static_cast<float>(c.dyadic(50, 4));
        case 1:
            return c.pick_of<float>({0.0F, -0.0F, 1.0F, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), 0.1F, 1e-7F, 16777217.0F});
        default:
        {
            const auto b = static_cast<uint32_t>(c.bits64());
            float f;
            memcpy(&f, &b, 4);
            if (finite && (!std::isfinite(f) || std::fpclassify(f) == FP_SUBNORMAL)) return 0.3F;
            return f;
        }
    }
}

static core::UID any_uid(vp::Case &c) { return c.chance(1, 8) ? core::UID(false) : c.chance(1, 2) ? make_uid(c.draw(5)) : random_uid(c); }

static msg::SpikeMessage any_spikes(vp::Case &c)
{
    msg::SpikeMessage m{{any_uid(c), any_u64(c)}, {}};
    for (size_t n = c.len(0, c.chance(1, 20) ? 3000 : 40); n; --n) m.neuron_indexes_.push_back(any_u32(c));
    return m;
}

static msg::SynapticImpactMessage any_impacts(vp::Case &c, bool finite)
{
    msg::SynapticImpactMessage m{{any_uid(c), any_u64(c)}, any_uid(c), any_uid(c), c.flag(), {}};
    for (size_t n = c.len(0, c.chance(1, 20) ? 1000 : 25); n; --n)
        m.impacts_.push_back(
            {any_u64(c), any_float(c, finite), static_cast<st::OutputType>(c.range(0, 4)), any_u32(c), any_u32(c)});
    return m;
}

// All fields, exactly.
static std::string str(const msg::SpikeMessage &m)
{
    return VP_STR("spikes " << m.header_.sender_uid_ << " @" << m.header_.send_time_ << " [" << vp::join(m.neuron_indexes_) << "]");
}

static std::string str(const msg::SynapticImpactMessage &m)
{
    std::ostringstream s;
    s << "impacts " << m.header_.sender_uid_ << " @" << m.header_.send_time_ << " " << m.presynaptic_population_uid_ << ">"
      << m.postsynaptic_population_uid_ << " forcing=" << m.is_forcing_ << " [";
    for (const auto &i : m.impacts_)
    {
        uint32_t bits;
        memcpy(&bits, &i.impact_value_, 4);
        s << "(" << i.connection_index_ << " " << i.impact_value_ << "/" << std::hex << bits << std::dec << " t"
          << static_cast<int>(i.synapse_type_) << " " << i.presynaptic_neuron_index_ << " " << i.postsynaptic_neuron_index_ << ")";
    }
    s << "]";
    return s.str();
}

template <class M>
static void envelope(vp::Case &c, const M &m)
{
    VP_NOTE(c, str(m) << "\n");
    const msg::MessageVariant v = m;
    const auto buf = msg::pack_to_envelope(v);
    const auto again = msg::pack_to_envelope(v);
    VP_CHECK(c, buf == again, "pack", "packing the same message twice differs");
    // The exact size: reading past the buffer is caught by AddressSanitizer.
    const std::unique_ptr<uint8_t[]> exact(new uint8_t[buf.size()]);
    memcpy(exact.get(), buf.data(), buf.size());
    const auto r1 = msg::extract_from_envelope(buf);
    const auto r2 = msg::extract_from_envelope(static_cast<const void *>(exact.get()));
    VP_CHECK(c, std::holds_alternative<M>(r1) && std::holds_alternative<M>(r2), "type", "another message type came out");
    VP_EQ(c, str(std::get<M>(r1)), str(m), "content", "vector overload");
    VP_EQ(c, str(std::get<M>(r2)), str(m), "content", "pointer overload");
    flatbuffers::Verifier ver(buf.data(), buf.size());
    VP_CHECK(c, msg::marshal::VerifyMessageEnvelopeBuffer(ver), "wire", "the buffer is no valid envelope");
}

static void envelope_round_trip(vp::Case &c)
{
    if (c.flag())
    {
        const auto m = any_spikes(c);
        if (!m.neuron_indexes_.empty()) c.nontrivial();
        envelope(c, m);
    }
    else
    {
        const auto m = any_impacts(c, false);
        if (!m.impacts_.empty()) c.nontrivial();
        envelope(c, m);
    }
}

static void stream_round_trip(vp::Case &c)
{
    std::stringstream ss;
    ss.precision(9);  // What a float needs.
    std::vector<std::variant<msg::SpikeMessage, msg::SynapticImpactMessage>> all;
    const size_t n = 1 + c.len(0, 4);
    // Messages of one stream are read into the same objects, which hold the previous message.
    for (size_t i = 0; i < n; ++i)
    {
        if (c.flag())
        {
            const auto m = any_spikes(c);
            ss << m << " ";
            all.emplace_back(m);
            VP_NOTE(c, str(m) << "\n");
        }
        else
        {
            const auto m = any_impacts(c, true);
            ss << m << " ";
            all.emplace_back(m);
            VP_NOTE(c, str(m) << "\n");
        }
    }
    msg::SpikeMessage sm = any_spikes(c);
    msg::SynapticImpactMessage im = any_impacts(c, true);
    for (size_t i = 0; i < n; ++i)
    {
        if (const auto *m = std::get_if<0>(&all[i]))
        {
            ss >> sm;
            VP_CHECK(c, !ss.fail(), "stream-state", i);
            VP_EQ(c, str(sm), str(*m), "content", "spike message " << i);
            VP_CHECK(c, sm == *m, "equality", "");
        }
        else
        {
            ss >> im;
            VP_CHECK(c, !ss.fail(), "stream-state", i);
            VP_EQ(c, str(im), str(std::get<1>(all[i])), "content", "impact message " << i);
            VP_CHECK(c, im == std::get<1>(all[i]), "equality", "");
        }
    }
    std::string rest;
    VP_CHECK(c, !(ss >> rest), "rest", "left in the stream: " << rest);
    // Header and a single impact.
    msg::MessageHeader h{any_uid(c), any_u64(c)}, h2{any_uid(c), any_u64(c)};
    std::stringstream hs;
    hs << h;
    hs >> h2;
    VP_CHECK(c, h2.sender_uid_ == h.sender_uid_ && h2.send_time_ == h.send_time_, "header", "");
    std::ostringstream ds;
    msg::operator<<(ds, msg::SpikeData{1, 2, 30});
    VP_EQ(c, ds.str(), "1 2 30 ", "spike-data-text", "");
    if (n > 1) c.nontrivial();
}

static void equality(vp::Case &c)
{
    if (c.flag())
    {
        const auto a = any_spikes(c);
        auto b = a;
        VP_CHECK(c, a == b, "equality", "a copy differs: " << str(a));
        const auto k = c.draw(5);
        switch (k)
        {
            case 0:
                b.header_.sender_uid_ = random_uid(c);
                break;
            case 1:
                b.header_.send_time_ ^= uint64_t{1} << c.draw(64);
                break;
            case 2:
                b.neuron_indexes_.insert(b.neuron_indexes_.begin() + static_cast<long>(c.draw(b.neuron_indexes_.size() + 1)), any_u32(c));
                break;
            case 3:
                if (b.neuron_indexes_.empty()) c.discard();
                b.neuron_indexes_[c.draw(b.neuron_indexes_.size())] ^= 1U << c.draw(32);
                break;
            default:
                if (b.neuron_indexes_.empty()) c.discard();
                b.neuron_indexes_.pop_back();
        }
        VP_NOTE(c, str(a) << " vs " << str(b) << "\n");
        VP_EQ(c, (a == b), (str(a) == str(b)), "equality", str(a) << " vs " << str(b));
        VP_EQ(c, (b == a), (a == b), "equality", "symmetry");
    }
    else
    {
        const auto a = any_impacts(c, true);
        auto b = a;
        VP_CHECK(c, a == b, "equality", "a copy differs: " << str(a));
        const auto k = c.draw(12);
        if (k >= 5 && b.impacts_.empty()) c.discard();
        auto &imp = b.impacts_.empty() ? *new msg::SynapticImpact() : b.impacts_[c.draw(b.impacts_.size())];
        switch (k)
        {
            case 0:
                b.header_.sender_uid_ = random_uid(c);
                break;
            case 1:
                b.header_.send_time_ ^= uint64_t{1} << c.draw(64);
                break;
            case 2:
                b.presynaptic_population_uid_ = random_uid(c);
                break;
            case 3:
                b.postsynaptic_population_uid_ = random_uid(c);
                break;
            case 4:
                b.is_forcing_ = !b.is_forcing_;
                break;
            case 5:
                imp.connection_index_ ^= uint64_t{1} << c.draw(64);
                break;
            case 6:
                imp.impact_value_ = std::nextafter(imp.impact_value_, 0.5F);
                break;
            case 7:
                imp.synapse_type_ = static_cast<st::OutputType>((static_cast<int>(imp.synapse_type_) + c.range(1, 4)) % 5);
                break;
            case 8:
                imp.presynaptic_neuron_index_ ^= 1U << c.draw(32);
                break;
            case 9:
                imp.postsynaptic_neuron_index_ ^= 1U << c.draw(32);
                break;
            case 10:
                b.impacts_.pop_back();
                break;
            default:
                b.impacts_.push_back(b.impacts_[0]);
        }
        VP_NOTE(c, str(a) << " vs " << str(b) << "\n");
        VP_EQ(c, (a == b), (str(a) == str(b)), "equality", str(a) << " vs " << str(b));
        VP_EQ(c, (b == a), (a == b), "equality", "symmetry");
    }
    c.nontrivial();
}

static void unknown_envelope(vp::Case &c)
{
    // An envelope of a type this version does not know is rejected.
    flatbuffers::FlatBufferBuilder b;
    const int type = c.flag() ? 0 : static_cast<int>(c.range(3, 255));
    VP_NOTE(c, "type " << type << "\n");
    const std::vector<uint32_t> idx(c.draw(5), 1);
    msg::marshal::MessageHeader h;
    const auto s = msg::marshal::CreateSpikeMessageDirect(b, &h, &idx);
    const auto e = msg::marshal::CreateMessageEnvelope(b, static_cast<msg::marshal::Message>(type), s.o);
    msg::marshal::FinishMessageEnvelopeBuffer(b, e);
    const std::vector<uint8_t> buf(b.GetBufferPointer(), b.GetBufferPointer() + b.GetSize());
    VP_CHECK(c, vp::throws([&] { (void)msg::extract_from_envelope(buf); }), "unknown-type", "type " << type << " is accepted");
    c.nontrivial();
}

// Messages of more entries than fit 16 bits.
static void large(vp::Case &c)
{
    std::mt19937_64 rng(c.bits64());
    const size_t n = rng() % (size_t{1} << c.range(8, 18));
    auto round_trip = [&](auto m)
    {
        using M = decltype(m);
        const auto buf = msg::pack_to_envelope(m);
        const auto r = msg::extract_from_envelope(buf);
        VP_CHECK(c, std::holds_alternative<M>(r), "type", "another message type came out");
        VP_CHECK(c, str(std::get<M>(r)) == str(m), "content", "message of " << n << " entries after the envelope");
        VP_CHECK(c, std::get<M>(r) == m, "equality", "message of " << n << " entries after the envelope");
        std::stringstream ss;
        ss.precision(9);
        ss << m;
        M got;
        ss >> got;
        VP_CHECK(c, !ss.fail(), "stream-state", "message of " << n << " entries");
        VP_CHECK(c, str(got) == str(m), "content", "message of " << n << " entries after the stream");
        auto other = m;
        auto &list = [](auto &x) -> auto & { if constexpr (std::is_same_v<M, msg::SpikeMessage>) return x.neuron_indexes_; else return x.impacts_; }(other);
        if (list.empty()) return;
        const size_t i = rng() % list.size();
        if constexpr (std::is_same_v<M, msg::SpikeMessage>) list[i] ^= 1U << rng() % 32;
        else list[i].postsynaptic_neuron_index_ ^= 1U << rng() % 32;
        VP_CHECK(c, !(other == m) && !(m == other), "equality", "entry " << i << " of " << n << " differs");
    };
    VP_NOTE(c, n << " entries\n");
    if (c.flag())
    {
        msg::SpikeMessage m{{any_uid(c), any_u64(c)}, {}};
        for (size_t i = 0; i < n; ++i) m.neuron_indexes_.push_back(static_cast<uint32_t>(rng() >> rng() % 32));
        round_trip(m);
    }
    else
    {
        msg::SynapticImpactMessage m{{any_uid(c), any_u64(c)}, any_uid(c), any_uid(c), c.flag(), {}};
        for (size_t i = 0; i < n; ++i)
            m.impacts_.push_back(
                {rng() >> rng() % 64, static_cast<float>(static_cast<int32_t>(rng())) / 1024, static_cast<st::OutputType>(rng() % 5), static_cast<uint32_t>(rng() >> rng() % 32),
                 static_cast<uint32_t>(rng() >> rng() % 32)});
        round_trip(m);
    }
    if (n > 3000) c.nontrivial();
}

int main(int argc, char **argv)
{
    std::vector<vp::Prop> props{
        {"envelope_round_trip", "any message of either kind, boundary values included, up to 3000 entries; non-trivial: at least one entry", envelope_round_trip, 60000},
        {"stream_round_trip", "1-5 messages written to one stream and read into objects that hold an earlier message; non-trivial: several messages", stream_round_trip, 15000},
        {"equality", "a message and a copy with one field changed; every case is non-trivial", equality, 60000},
        {"unknown_envelope", "an envelope with an unknown message type; every case is non-trivial", unknown_envelope, 500},
        {"large", "messages of up to 2^18 entries through the envelope and a stream, and compared with one entry changed; non-trivial: more than 3000 entries", large, 300, 0.3},
    };
    return vp::run_main(argc, argv, "C06", props, {}, {"text round trip: finite, non-subnormal values and a stream precision of 9 digits, what a float needs"});
}
