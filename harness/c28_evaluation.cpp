// C28: inference evaluation counts what happened.
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/inference_evaluation/perfomance_metrics.h>

#include <map>
#include <sstream>

#include "knp_gen.hpp"

using namespace knp;
namespace ev = knp::framework::inference_evaluation;
using Processor = ev::classification::InferenceResultsProcessor;
using SpikeMessage = core::messaging::SpikeMessage;

namespace
{
// A dataset with labels only.
class Labels : public framework::data_processing::classification::Dataset
{
public:
    Labels(size_t training, const std::vector<unsigned> &inference, size_t steps, size_t classes)
    {
        // Labels of the training part say nothing about the inference.
        for (size_t i = 0; i < training; ++i) dataset_.push_back({static_cast<unsigned>(i % classes), {}});
        for (auto l : inference) dataset_.push_back({l, {}});
        steps_per_frame_ = steps;
        classes_amount_ = classes;
        split(training, inference.size());
    }
};

struct Counts
{
    size_t tp = 0, fn = 0, fp = 0, tn = 0;
    bool operator==(const Counts &o) const { return tp == o.tp && fn == o.fn && fp == o.fp && tn == o.tn; }
};
std::ostream &operator<<(std::ostream &s, const Counts &c)
{
    return s << "TP " << c.tp << " FN " << c.fn << " FP " << c.fp << " TN " << c.tn;
}

struct Inference
{
    size_t training, steps, classes;
    std::vector<unsigned> labels;
    std::vector<SpikeMessage> spikes;
};

// The class that most spikes of a frame voted for, the lowest one if several did, or -1 without votes.
std::vector<int> predictions(const Inference &in)
{
    std::vector<int> r;
    for (size_t i = 0; i < in.labels.size(); ++i)
    {
        std::vector<size_t> votes(in.classes);
        for (const auto &m : in.spikes)
            if (m.header_.send_time_ / in.steps == i)
                for (auto n : m.neuron_indexes_) ++votes[n % in.classes];
        int best = -1;
        for (size_t k = 0; k < in.classes; ++k)
            if (votes[k] && (best < 0 || votes[k] > votes[best])) best = static_cast<int>(k);
        r.push_back(best);
    }
    return r;
}

// Counts as they are defined, or with a frame taken for another class counted as a false positive of its own class.
std::vector<Counts> counts(const Inference &in, bool own_class)
{
    std::vector<Counts> r(in.classes);
    const auto p = predictions(in);
    for (size_t i = 0; i < p.size(); ++i)
    {
        const int label = static_cast<int>(in.labels[i]);
        if (p[i] == label) ++r[label].tp;
        else if (p[i] < 0) ++r[label].fn;
        else if (own_class) ++r[label].fp;
        else
        {
            ++r[label].fn;
            ++r[p[i]].fp;
        }
    }
    for (auto &x : r) x.tn = p.size() - x.tp - x.fn - x.fp;
    return r;
}

std::vector<Counts> results(const Processor &p)
{
    std::vector<Counts> r;
    for (const auto &x : p.get_inference_results()) r.push_back({x.true_positives_, x.false_negatives_, x.false_positives_, x.true_negatives_});
    return r;
}

double ratio(size_t a, size_t b)
{
    return b ? static_cast<double>(a) / static_cast<double>(b) : 0;
}

bool close(double a, double b)
{
    return std::abs(a - b) <= 2e-5 * std::max(1.0, std::abs(b));
}

struct Row
{
    std::vector<std::string> cells;
    double number(size_t i) const { return std::stod(cells[i]); }
};

std::vector<Row> parse_csv(const std::string &text)
{
    std::vector<Row> rows;
    std::istringstream s(text);
    for (std::string line; std::getline(s, line);)
    {
        Row r;
        std::istringstream l(line);
        for (std::string cell; std::getline(l, cell, ',');) r.cells.push_back(cell);
        rows.push_back(std::move(r));
    }
    return rows;
}

const char *header = "CLASS,TOTAL_VOTES,TRUE_POSITIVES,FALSE_NEGATIVES,FALSE_POSITIVES,TRUE_NEGATIVES,PRECISION,RECALL,PREVALENCE,ACCURACY,F_SCORE";

void check_csv(vp::Case &c, Processor &p)
{
    std::ostringstream text;
    p.write_inference_results_to_stream_as_csv(text);
    const auto expected = results(p);
    const auto rows = parse_csv(text.str());
    VP_CHECK(c, text.str().substr(0, text.str().find('\n')) == header, "header", text.str());
    VP_EQ(c, rows.size(), expected.size() + 1, "rows", "lines in " << text.str());
    // Recall is computed with the false positives: see the known findings.
    bool recall_by_fn = true, recall_by_fp = true;
    for (size_t i = 0; i < expected.size(); ++i)
    {
        const auto &r = rows[i + 1];
        const auto &e = expected[i];
        VP_EQ(c, r.cells.size(), size_t(11), "row", "cells in row " << i);
        const size_t total = e.tp + e.fn + e.fp, all = total + e.tn;
        const size_t ints[] = {i, total, e.tp, e.fn, e.fp, e.tn};
        for (size_t k = 0; k < 6; ++k) VP_EQ(c, r.cells[k], std::to_string(ints[k]), "row", "row " << i << ", column " << k << " of " << text.str());
        VP_CHECK(c, close(r.number(6), ratio(e.tp, e.tp + e.fp)), "precision", "row " << i << " of " << text.str());
        if (!close(r.number(7), ratio(e.tp, e.tp + e.fn))) recall_by_fn = false;
        if (!close(r.number(7), ratio(e.tp, e.tp + e.fp))) recall_by_fp = false;
        VP_CHECK(c, close(r.number(8), ratio(e.tp + e.fn, all)), "prevalence", "row " << i << " of " << text.str());
        VP_CHECK(c, close(r.number(9), ratio(e.tp + e.tn, all)), "accuracy", "row " << i << " of " << text.str());
        const double pr = r.number(6), re = r.number(7);
        VP_CHECK(c, close(r.number(10), pr * re == 0 ? 0 : 2 * pr * re / (pr + re)), "f-score", "row " << i << " of " << text.str());
    }
    VP_CHECK(c, recall_by_fn || recall_by_fp, "recall", text.str());
}

std::string str(const std::vector<Counts> &v)
{
    return vp::join(v, "; ");
}

void evaluation(vp::Case &c)
{
    Processor p;
    // The processor may be used again: old results are replaced.
    for (size_t n = c.len(1, 2); n; --n)
    {
        Inference in;
        in.training = c.len(0, 4);
        in.steps = c.len(1, 6);
        in.classes = c.chance(1, 25) ? c.range(100, 1000) : c.len(1, 6);
        const size_t frames = c.chance(1, 40) ? c.range(250, 600) : c.len(0, 12);
        const bool crowd = c.chance(1, 20);
        for (size_t i = 0; i < frames; ++i) in.labels.push_back(static_cast<unsigned>(c.draw(in.classes)));
        const size_t total = frames * in.steps;
        // Any number of messages in a step, also after the last frame.
        const size_t mode = c.weighted({3, 2, 1});
        for (size_t step = 0; step < total + 3; ++step)
            for (size_t k = c.weighted({4, 4, 1, 1}); k; --k)
            {
                SpikeMessage m{{kg::make_uid(1 + c.draw(3)), step}, {}};
                const size_t label = step / in.steps < frames ? in.labels[step / in.steps] : 0;
                for (size_t s = crowd && c.chance(1, 6) ? c.range(100, 700) : c.weighted({2, 3, 2, 1}); s; --s)
                {
                    size_t who = mode == 0 && c.chance(2, 3) ? label : mode == 1 && c.chance(1, 2) ? (label + 1) % in.classes : c.draw(in.classes);
                    who += in.classes * c.weighted({3, 2, 1});
                    m.neuron_indexes_.push_back(static_cast<core::messaging::SpikeIndex>(who));
                }
                in.spikes.push_back(std::move(m));
            }
        if (c.noting())
        {
            VP_NOTE(c, in.training << " frames for training, " << in.steps << " steps per frame, " << in.classes << " classes, labels " << vp::join(in.labels) << "\n");
            for (const auto &m : in.spikes) VP_NOTE(c, "  step " << m.header_.send_time_ << ": " << vp::join(m.neuron_indexes_) << "\n");
        }
        Labels labels(in.training, in.labels, in.steps, in.classes);
        p.process_inference_results(in.spikes, labels);
        const auto got = results(p), defined = counts(in, false), own = counts(in, true);
        // Frames taken for another class are counted in their own one: see the known findings.
        VP_CHECK(c, got == defined || got == own, "counts", str(got) << ", expected " << str(own));
        for (const auto &r : p.get_inference_results()) VP_EQ(c, r.get_total_votes(), r.true_positives_ + r.false_negatives_ + r.false_positives_, "total", "votes");
        check_csv(c, p);
        size_t right = 0, wrong = 0;
        for (const auto &x : own)
        {
            right += x.tp;
            wrong += x.fp;
        }
        if (right && wrong && in.classes > 1) c.nontrivial();
        if (!frames) c.label("no frames");
    }
}

// The metrics for any counts.
void metrics(vp::Case &c)
{
    auto count = [&] { return c.weighted({1, 3, 2}) == 0 ? size_t(0) : c.flag() ? c.draw(20) : c.draw(10000000); };
    const size_t tp = count(), fn = count(), fp = count(), tn = count(), all = tp + fn + fp + tn;
    VP_NOTE(c, "TP " << tp << ", FN " << fn << ", FP " << fp << ", TN " << tn << "\n");
    auto check = [&](double got, double want, const char *what) { VP_CHECK(c, got == want || std::abs(got - want) <= 1e-6 + 1e-5 * std::abs(want), what, got << ", expected " << want); };
    const float precision = ev::get_precision(tp, fp), recall = ev::get_recall(tp, fn);
    check(precision, ratio(tp, tp + fp), "precision");
    check(recall, ratio(tp, tp + fn), "recall");
    check(ev::get_prevalence(tp, fn, fp, tn), ratio(tp + fn, all), "prevalence");
    check(ev::get_accuracy(tp, fn, fp, tn), ratio(tp + tn, all), "accuracy");
    // F-score in counts: 2 TP / (2 TP + FP + FN).
    check(ev::get_f_score(precision, recall), ratio(2 * tp, 2 * tp + fp + fn), "f-score");
    if (tp && (fn || fp)) c.nontrivial();
    if (!tp) c.label("no true positives");
}

// One frame of class 0 which is taken for class 1.
Inference misclassified()
{
    return {0, 1, 2, {0}, {SpikeMessage{{kg::make_uid(1), 0}, {1}}}};
}

std::string attribution()
{
    const auto in = misclassified();
    Processor p;
    p.process_inference_results(in.spikes, Labels(0, in.labels, in.steps, in.classes));
    if (results(p) == counts(in, true) && !(results(p) == counts(in, false)))
        return "a frame of class 0 classified as 1 is counted as a false positive of class 0 instead of a false negative of class 0 and a false positive of class 1";
    return "";
}

std::string recall_column()
{
    // Class 0: one frame recognised, one missed without votes.
    const Inference in{0, 1, 2, {0, 0}, {SpikeMessage{{kg::make_uid(1), 0}, {0}}}};
    Processor p;
    p.process_inference_results(in.spikes, Labels(0, in.labels, in.steps, in.classes));
    std::ostringstream text;
    p.write_inference_results_to_stream_as_csv(text);
    const auto rows = parse_csv(text.str());
    if (rows.size() == 3 && rows[1].cells.size() == 11 && close(rows[1].number(7), 1)) return "recall of a class with one of two frames recognised is written as 1, computed with false positives in place of false negatives";
    return "";
}
}  // namespace

int main(int argc, char **argv)
{
    return vp::run_main(
        argc, argv, "C28",
        {
            {"evaluation", "0-12 frames of 1-6 classes over 1-6 steps, any messages in step order; non-trivial: right and wrong predictions among more than one class", evaluation, 20000},
            {"metrics", "counts from 0 to 10 million; non-trivial: true positives and some false result", metrics, 40000},
        },
        {{"misclassified-own-class", attribution}, {"recall-of-false-positives", recall_column}},
        {"labels are less than the number of classes, messages come in the order of steps"});
}
