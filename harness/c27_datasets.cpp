// C27: datasets give back exactly the frames they were built from.
#include <knp/framework/data_processing/classification/image.h>

#include <limits>
#include <sstream>

#include "knp_gen.hpp"

using namespace knp;
namespace dp = knp::framework::data_processing::classification;
using Dataset = dp::images::Dataset;
using Frame = Dataset::Frame;
using Spikes = core::messaging::SpikeData;

namespace
{
struct Image
{
    std::vector<uint8_t> pixels;
    unsigned label;
};

std::vector<uint8_t> gen_pixels(vp::Case &c, size_t size)
{
    std::vector<uint8_t> r(size);
    if (size > 32)  // The contents come from a generator seeded by one choice.
    {
        std::mt19937_64 rng(c.bits64());
        for (auto &p : r) p = rng() % 3 ? static_cast<uint8_t>(rng()) : rng() % 4 ? 0 : 255;
        return r;
    }
    for (auto &p : r) p = static_cast<uint8_t>(c.weighted({2, 1, 3}) == 0 ? 0 : c.chance(1, 4) ? 255 : c.draw(256));
    return r;
}

std::string spikes_str(const std::vector<bool> &v)
{
    std::string r;
    for (bool b : v) r += b ? '1' : '0';
    return r;
}

// What the streams hold, where the data ends, and what the dataset has to be.
struct Source
{
    size_t image_size, steps, classes, limit;
    std::vector<Image> images;
    std::string pixel_text, label_text;
    size_t frames;
};

Source gen_source(vp::Case &c)
{
    Source s;
    s.image_size = c.chance(1, 40) ? c.range(100, 800) : c.len(1, 9);
    s.steps = c.len(1, 6);
    s.classes = c.chance(1, 20) ? c.range(200, 100000) : c.len(1, 12);
    const size_t images = c.chance(1, 40) ? c.range(200, 400) : c.len(0, 9);
    for (size_t i = 0; i < images; ++i)
    {
        s.images.push_back({gen_pixels(c, s.image_size), static_cast<unsigned>(c.draw(s.classes))});
        s.pixel_text.append(reinterpret_cast<const char *>(s.images.back().pixels.data()), s.image_size);
        s.label_text += std::to_string(s.images.back().label);
        if (i + 1 < images) s.label_text += "\n";
    }
    s.frames = images;
    if (images && c.flag()) s.label_text += "\n";
    if (c.chance(1, 4))
    {
        // A part of an image at the end, with or without a label.
        const size_t part = c.draw(s.image_size);
        s.pixel_text.append(part, '\x7f');
        if (c.flag())
        {
            if (!s.label_text.empty() && s.label_text.back() != '\n') s.label_text += "\n";
            s.label_text += "0\n";
        }
        if (part) c.label("partial image");
    }
    else if (images && c.chance(1, 4))
    {
        // Fewer labels than images.
        s.frames = c.draw(images);
        size_t at = 0;
        for (size_t i = 0; i < s.frames; ++i) at = s.label_text.find('\n', at) + 1;
        s.label_text.resize(at);
        if (at && c.flag()) s.label_text.resize(at - 1);
        c.label("labels missing");
    }
    else if (images && c.chance(1, 4))
    {
        // Fewer images than labels.
        s.frames = c.draw(images);
        s.pixel_text.resize(s.frames * s.image_size);
        c.label("images missing");
    }
    s.limit = c.chance(1, 3) ? c.len(0, s.frames + 1) : c.chance(1, 2) ? s.frames : s.frames + c.len(0, 5);
    if (c.chance(1, 12))
    {
        // As much as there is.
        s.limit = c.pick_of<size_t>({1000000, size_t{1} << 31, size_t{1} << 32, size_t{1} << 40, SIZE_MAX / 2, SIZE_MAX});
        c.label("no limit");
    }
    if (s.limit < s.frames) c.label("limited");
    s.frames = std::min(s.frames, s.limit);
    return s;
}

// Frames as the given function of the images makes them.
void compare_frames(vp::Case &c, const Dataset &d, size_t training, size_t inference, const std::vector<std::pair<unsigned, std::vector<bool>>> &expected)
{
    auto part = [&](auto range, size_t from, size_t count, const char *what)
    {
        VP_EQ(c, static_cast<size_t>(std::distance(range.first, range.second)), count, "split", what << " frames");
        for (size_t i = 0; i < count; ++i)
        {
            VP_EQ(c, range.first[i].first, expected[from + i].first, "label", what << " frame " << i << ": label");
            VP_CHECK(c, range.first[i].second.spikes_ == expected[from + i].second, "frame",
                     what << " frame " << i << ": " << spikes_str(range.first[i].second.spikes_) << ", expected " << spikes_str(expected[from + i].second));
        }
    };
    part(d.get_data_for_training(), 0, training, "training");
    part(d.get_data_for_inference(), training, inference, "inference");
    VP_EQ(c, d.get_steps_amount_for_training(), training * d.get_steps_per_frame(), "steps", "training steps");
    VP_EQ(c, d.get_steps_amount_for_inference(), inference * d.get_steps_per_frame(), "steps", "inference steps");
}

void generators(vp::Case &c, const Dataset &d, size_t image_size, size_t steps, size_t training, size_t inference, const std::vector<std::pair<unsigned, std::vector<bool>>> &frames)
{
    auto labels = d.make_training_labels_generator();
    auto train = d.make_training_images_spikes_generator(), infer = d.make_inference_images_spikes_generator();
    for (size_t n = c.len(1, 20), i = 0; i < n; ++i)
    {
        const core::Step step = c.chance(1, 6)   ? c.draw(1000000)
                                : c.chance(1, 8) ? (uint64_t{1} << c.range(31, 62)) + c.draw(100)
                                                 : c.draw(2 * (training + inference + 1) * steps);
        auto expected = [&](size_t from, size_t count)
        {
            Spikes r;
            const auto &f = frames[from + step / steps % count].second;
            for (size_t k = 0; k < image_size; ++k)
                if (f[step % steps * image_size + k]) r.push_back(static_cast<core::messaging::SpikeIndex>(k));
            return r;
        };
        auto same = [&](const Spikes &got, const Spikes &want, const char *what)
        { VP_CHECK(c, got == want, what, "step " << step << ": [" << vp::join(got) << "], expected [" << vp::join(want) << "]"); };
        if (training)
        {
            same(labels(step), {frames[step / steps % training].first}, "training labels");
            same(train(step), expected(0, training), "training images");
        }
        if (inference) same(infer(step), expected(training, inference), "inference images");
    }
}

void splits(vp::Case &c, Dataset &d, const Source &s, const std::vector<std::pair<unsigned, std::vector<bool>>> &frames)
{
    size_t training = 0, inference = 0;
    for (size_t n = c.len(1, 4); n; --n)
    {
        if (c.chance(1, 4))
        {
            // More frames than there are.
            const size_t huge = std::numeric_limits<size_t>::max();
            size_t a = c.len(0, s.frames), b = s.frames - a + 1 + c.len(0, 3);
            if (c.flag())
            {
                a = huge - c.draw(3);
                b = c.draw(8);
            }
            if (c.flag()) std::swap(a, b);
            VP_NOTE(c, "split " << a << ", " << b << " throws\n");
            VP_CHECK(c, vp::throws([&] { d.split(a, b); }), "split", "no exception for " << a << " and " << b << " frames out of " << s.frames);
            c.label("too large split");
        }
        else
        {
            training = c.len(0, s.frames);
            inference = c.flag() ? s.frames - training : c.len(0, s.frames - training);
            VP_NOTE(c, "split " << training << ", " << inference << "\n");
            d.split(training, inference);
        }
        compare_frames(c, d, training, inference, frames);
        generators(c, d, s.image_size, s.steps, training, inference, frames);
    }
    if (s.frames >= 2 && training && inference) c.nontrivial();
}

void note_source(vp::Case &c, const Source &s)
{
    if (!c.noting()) return;
    std::string labels = s.label_text;
    for (auto &ch : labels)
        if (ch == '\n') ch = '/';
    VP_NOTE(c, s.images.size() << " images of " << s.image_size << " pixels, " << s.pixel_text.size() << " bytes, labels '" << labels << "', " << s.steps << " steps per image, limit " << s.limit << ", " << s.frames
                               << " frames expected\n");
}

// Images as they are in the streams, with any conversion to spikes.
void reading(vp::Case &c)
{
    Source s = gen_source(c);
    note_source(c, s);
    std::istringstream pixels(s.pixel_text), labels(s.label_text);
    Dataset d;
    std::vector<std::vector<uint8_t>> seen;
    // Spikes at a step when the pixel is above a threshold of the step.
    auto convert = [&](const std::vector<uint8_t> &image)
    {
        std::vector<bool> r;
        for (size_t i = 0; i < s.steps; ++i)
            for (auto p : image) r.push_back(p > i * 40 && (p + i) % 3 != 0);
        return r;
    };
    d.process_labels_and_images(
        pixels, labels, s.limit, s.classes, s.image_size, s.steps,
        [&](const std::vector<uint8_t> &image)
        {
            seen.push_back(image);
            return Frame{convert(image)};
        });
    if (c.chance(1, 4))
    {
        // Frames of other streams are added to those there are.
        const size_t more = c.len(0, 4), limit = c.len(0, 5);
        std::string pixel_text, label_text;
        s.images.resize(s.frames);
        for (size_t i = 0; i < more; ++i)
        {
            s.images.push_back({gen_pixels(c, s.image_size), static_cast<unsigned>(c.draw(s.classes))});
            pixel_text.append(reinterpret_cast<const char *>(s.images.back().pixels.data()), s.image_size);
            label_text += std::to_string(s.images.back().label) + "\n";
        }
        VP_NOTE(c, more << " more images, limit " << limit << "\n");
        std::istringstream more_pixels(pixel_text), more_labels(label_text);
        d.process_labels_and_images(
            more_pixels, more_labels, limit, s.classes, s.image_size, s.steps,
            [&](const std::vector<uint8_t> &image)
            {
                seen.push_back(image);
                return Frame{convert(image)};
            });
        s.frames += std::min(more, limit);
        c.label("streams added");
    }
    VP_EQ(c, d.get_image_size(), s.image_size, "values", "image size");
    VP_EQ(c, d.get_steps_per_frame(), s.steps, "values", "steps per frame");
    VP_EQ(c, d.get_amount_of_classes(), s.classes, "values", "classes");
    std::vector<std::pair<unsigned, std::vector<bool>>> frames;
    for (size_t i = 0; i < s.frames; ++i)
    {
        VP_CHECK(c, seen.size() > i && seen[i] == s.images[i].pixels, "pixels", "image " << i << " of " << s.frames);
        frames.emplace_back(s.images[i].label, convert(s.images[i].pixels));
    }
    // The whole dataset is exactly the frames expected.
    VP_CHECK(c, !vp::throws([&] { d.split(s.frames, 0); }), "frames", "fewer than " << s.frames << " frames");
    VP_CHECK(c, vp::throws([&] { d.split(s.frames + 1, 0); }), "frames", "more than " << s.frames << " frames");
    d.split(0, 0);
    splits(c, d, s, frames);
    // A copy is a dataset of its own.
    if (s.frames && c.chance(1, 4))
    {
        d.split(s.frames, 0);
        Dataset copy(d);
        d.split(0, s.frames);
        compare_frames(c, copy, s.frames, 0, frames);
        compare_frames(c, d, 0, s.frames, frames);
        generators(c, copy, s.image_size, s.steps, s.frames, 0, frames);
    }
}

// Frames of the converter which adds pixels up to spikes.
void incrementing(vp::Case &c)
{
    const Source s = gen_source(c);
    const size_t active = c.len(0, s.steps);
    // Factors with few bits make all sums exact.
    const float factor = static_cast<float>(c.range(0, 64)) / static_cast<float>(1 << c.range(6, 14));
    note_source(c, s);
    VP_NOTE(c, "active steps " << active << ", factor " << factor << "\n");
    std::istringstream pixels(s.pixel_text), labels(s.label_text);
    Dataset d;
    // The converter exists before the size of the images is known to the dataset.
    auto converter = d.make_incrementing_image_to_spikes_converter(active, factor);
    d.process_labels_and_images(pixels, labels, s.limit, s.classes, s.image_size, s.steps, converter);
    std::vector<std::pair<unsigned, std::vector<bool>>> frames;
    std::vector<float> states(s.image_size, 0);
    size_t spikes = 0;
    for (size_t i = 0; i < s.frames; ++i)
    {
        std::vector<bool> f(s.steps * s.image_size, false);
        for (size_t k = 0; k < active; ++k)
            for (size_t p = 0; p < s.image_size; ++p)
            {
                states[p] += factor * static_cast<float>(s.images[i].pixels[p]);
                if (states[p] >= 1)
                {
                    f[k * s.image_size + p] = true;
                    states[p] -= 1;
                    ++spikes;
                }
            }
        frames.emplace_back(s.images[i].label, f);
    }
    splits(c, d, s, frames);
    if (spikes && s.frames >= 2) c.nontrivial();
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C27",
        {
            {"reading", "0-9 images of 1-9 pixels with labels, with or without the last newline, streams of different lengths, cut short or limited; splits and generators at any steps; non-trivial: 2 or more frames in both parts", reading, 15000},
            {"incrementing", "the same with the converter that adds pixels up; non-trivial: 2 or more frames and a spike", incrementing, 15000},
        },
        {}, {"labels are less than the number of classes; spikes of a part of a dataset are generated when it has frames"});
}
