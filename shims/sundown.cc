// Stand-in for sundown (submodule absent): the block level of Markdown, with source maps, behind the
// interface of shims/markdown.h.  Written from the documented behaviour of sundown as /repo uses it:
// ATX and setext headers, paragraphs, indented and fenced code, lists, quotes, rules, HTML blocks.
// No span-level rendering takes place (the parser in /repo registers no span callbacks).
#include "markdown.h"

#include <cctype>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace
{
    struct Text {
        std::string s;
        std::vector<size_t> off; // where in the document each byte comes from

        size_t size() const { return s.size(); }
        void put(const Text& from, size_t b, size_t e)
        {
            s.append(from.s, b, e - b);
            off.insert(off.end(), from.off.begin() + b, from.off.begin() + e);
        }
        void put(char c, size_t o)
        {
            s.push_back(c);
            off.push_back(o);
        }
        Text sub(size_t b, size_t e) const
        {
            Text t;
            t.put(*this, b, e);
            return t;
        }
    };

    // A view of the rest of a text
    struct View {
        const char* d;
        size_t n;
        char operator[](size_t i) const { return d[i]; }
        View from(size_t i) const { return View{ d + i, n - i }; }
    };

    bool space(char c) { return c == ' ' || c == '\n'; }

    size_t lineEnd(const View& v, size_t beg) // one past the newline that ends the line at beg
    {
        size_t end = beg + 1;
        while (end < v.n && v[end - 1] != '\n')
            end++;
        return end < v.n ? end : v.n;
    }

    size_t isEmpty(const View& v)
    {
        size_t i = 0;
        for (; i < v.n && v[i] != '\n'; i++)
            if (v[i] != ' ')
                return 0;
        return i + 1;
    }

    size_t indent(const View& v)
    {
        size_t i = 0;
        while (i < 3 && i < v.n && v[i] == ' ')
            i++;
        return i;
    }

    bool isHrule(const View& v)
    {
        if (v.n < 3)
            return false;
        size_t i = indent(v), n = 0;
        if (i + 2 >= v.n || (v[i] != '*' && v[i] != '-' && v[i] != '_'))
            return false;
        const char c = v[i];
        for (; i < v.n && v[i] != '\n'; i++) {
            if (v[i] == c)
                n++;
            else if (v[i] != ' ')
                return false;
        }
        return n >= 3;
    }

    // Past the opening (or closing) fence, 0 if there is none; lang: what follows the fence
    size_t codeFence(const View& v, std::string* lang)
    {
        size_t i = indent(v), n = 0;
        if (i + 2 >= v.n || (v[i] != '~' && v[i] != '`'))
            return 0;
        const char c = v[i];
        while (i < v.n && v[i] == c) {
            i++;
            n++;
        }
        if (n < 3)
            return 0;
        while (i < v.n && v[i] == ' ')
            i++;
        std::string syntax;
        if (i < v.n && v[i] == '{') {
            for (i++; i < v.n && v[i] != '}' && v[i] != '\n'; i++)
                syntax.push_back(v[i]);
            if (i == v.n || v[i] != '}')
                return 0;
            i++;
        } else {
            while (i < v.n && !space(v[i]))
                syntax.push_back(v[i++]);
        }
        if (lang)
            *lang = syntax;
        for (; i < v.n && v[i] != '\n'; i++)
            if (!space(v[i]))
                return 0;
        return i + 1;
    }

    int headerLine(const View& v)
    {
        if (v.n == 0)
            return 0;
        for (const char c : { '=', '-' })
            if (v[0] == c) {
                size_t i = 1;
                while (i < v.n && v[i] == c)
                    i++;
                while (i < v.n && v[i] == ' ')
                    i++;
                return (i >= v.n || v[i] == '\n') ? (c == '=' ? 1 : 2) : 0;
            }
        return 0;
    }

    bool nextHeaderLine(const View& v)
    {
        size_t i = 0;
        while (i < v.n && v[i] != '\n')
            i++;
        return ++i < v.n && headerLine(v.from(i));
    }

    size_t prefixQuote(const View& v)
    {
        size_t i = indent(v);
        if (i < v.n && v[i] == '>')
            return (i + 1 < v.n && v[i + 1] == ' ') ? i + 2 : i + 1;
        return 0;
    }

    size_t prefixCode(const View& v)
    {
        return v.n > 3 && v[0] == ' ' && v[1] == ' ' && v[2] == ' ' && v[3] == ' ' ? 4 : 0;
    }

    size_t prefixUli(const View& v)
    {
        size_t i = indent(v);
        if (i + 1 >= v.n || (v[i] != '*' && v[i] != '+' && v[i] != '-') || v[i + 1] != ' ')
            return 0;
        return nextHeaderLine(v.from(i)) ? 0 : i + 2;
    }

    size_t prefixOli(const View& v)
    {
        size_t i = indent(v);
        if (i >= v.n || v[i] < '0' || v[i] > '9')
            return 0;
        while (i < v.n && v[i] >= '0' && v[i] <= '9')
            i++;
        if (i + 1 >= v.n || v[i] != '.' || v[i + 1] != ' ')
            return 0;
        return nextHeaderLine(v.from(i)) ? 0 : i + 2;
    }

    bool blockTag(const std::string& name)
    {
        static const char* tags[] = { "blockquote", "del", "div", "dl", "fieldset", "figure", "form", "h1", "h2",
            "h3", "h4", "h5", "h6", "iframe", "ins", "math", "noscript", "ol", "p", "pre", "script", "style", "table",
            "ul" };
        std::string low;
        for (char c : name)
            low.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
        for (const char* t : tags)
            if (low == t)
                return true;
        return false;
    }

    // End of the HTML block at the start of the view, 0 if there is none
    size_t htmlBlock(const View& v)
    {
        if (v.n < 2 || v[0] != '<')
            return 0;
        size_t t = 1;
        while (t < v.n && v[t] != '>' && v[t] != ' ')
            t++;
        const std::string tag(v.d + 1, t - 1);
        if (t >= v.n || !blockTag(tag)) {
            if (v.n > 5 && v[1] == '!' && v[2] == '-' && v[3] == '-') { // comment, followed by an empty line
                size_t i = 5;
                while (i < v.n && !(v[i - 2] == '-' && v[i - 1] == '-' && v[i] == '>'))
                    i++;
                i++;
                const size_t j = i < v.n ? isEmpty(v.from(i)) : 0;
                return j ? i + j : 0;
            }
            if (v.n > 4 && std::tolower(v[1]) == 'h' && std::tolower(v[2]) == 'r') { // self-closing rule
                size_t i = 3;
                while (i < v.n && v[i] != '>')
                    i++;
                if (i + 1 < v.n) {
                    i++;
                    const size_t j = isEmpty(v.from(i));
                    return j ? i + j : 0;
                }
            }
            return 0;
        }
        // the closing tag, first one at the start of a line, followed by an empty line
        for (int lax = 0; lax < 2; lax++) {
            if (lax && (tag == "ins" || tag == "del"))
                break;
            size_t i = 1;
            int blocks = 0;
            while (i < v.n) {
                i++;
                while (i < v.n && !(v[i - 1] == '<' && v[i] == '/'))
                    i++;
                if (i + 2 + tag.size() >= v.n)
                    break;
                if (!lax && i >= 2 && v[i - 2] == '\n')
                    blocks++;
                const std::string close = "</" + tag + ">";
                const size_t at = i - 1;
                if (at + close.size() > v.n)
                    continue;
                std::string have(v.d + at, close.size());
                bool same = true;
                for (size_t k = 0; k < close.size(); k++)
                    same = same && std::tolower(have[k]) == std::tolower(close[k]);
                if (!same)
                    continue;
                if (!lax && at > 0 && v[at - 1] != '\n' && blocks > 0)
                    continue;
                size_t end = at + close.size();
                size_t w = end < v.n ? isEmpty(v.from(end)) : 0;
                if (end < v.n && !w)
                    continue;
                end += w;
                w = 0;
                if (end < v.n)
                    w = isEmpty(v.from(end));
                return end + w > v.n ? v.n : end + w;
            }
        }
        return 0;
    }
}

struct sd_markdown {
    sd_callbacks cb;
    void* opaque;
    unsigned int extensions;
    size_t nesting;
    size_t depth;

    static buf wrap(const std::string& s)
    {
        buf b;
        b.data = s.empty() ? nullptr : reinterpret_cast<uint8_t*>(const_cast<char*>(s.data()));
        b.size = s.size();
        b.asize = s.size();
        b.unit = 1;
        return b;
    }

    void parsed(const Text& t, size_t b, size_t e)
    {
        if (!cb.block_did_parse || b >= e)
            return;
        std::vector<range> ranges;
        for (size_t i = b; i < e && i < t.size(); i++) {
            if (!ranges.empty() && ranges.back().loc + ranges.back().len == t.off[i])
                ranges.back().len++;
            else
                ranges.push_back(range{ t.off[i], 1 });
        }
        if (ranges.empty())
            return;
        std::vector<void*> items;
        for (auto& r : ranges)
            items.push_back(&r);
        src_map map;
        map.item = items.data();
        map.size = items.size();
        map.asize = items.size();
        cb.block_did_parse(&map, reinterpret_cast<const uint8_t*>(t.s.data() + b), e - b, opaque);
    }

    size_t header(const Text& t, size_t beg)
    {
        const View v{ t.s.data() + beg, t.size() - beg };
        size_t level = 0;
        while (level < v.n && level < 6 && v[level] == '#')
            level++;
        size_t i = level;
        while (i < v.n && v[i] == ' ')
            i++;
        size_t end = i;
        while (end < v.n && v[end] != '\n')
            end++;
        const size_t skip = end;
        while (end && v[end - 1] == '#')
            end--;
        while (end && v[end - 1] == ' ')
            end--;
        if (end > i) {
            const std::string text(v.d + i, end - i);
            const buf b = wrap(text);
            if (cb.header)
                cb.header(nullptr, &b, static_cast<int>(level), opaque);
        }
        return skip;
    }

    size_t paragraph(const Text& t, size_t beg)
    {
        const View v{ t.s.data() + beg, t.size() - beg };
        size_t i = 0, end = 0;
        int level = 0;
        while (i < v.n) {
            end = lineEnd(v, i);
            const View at = v.from(i);
            if (isEmpty(at))
                break;
            if ((level = headerLine(at)) != 0)
                break;
            if (at[0] == '#' || isHrule(at) || prefixQuote(at)) {
                end = i;
                break;
            }
            if ((extensions & MKDEXT_LAX_SPACING) && !std::isalnum(static_cast<unsigned char>(at[0]))) {
                if (prefixOli(at) || prefixUli(at) || (at[0] == '<' && htmlBlock(at))
                    || ((extensions & MKDEXT_FENCED_CODE) && codeFence(at, nullptr))) {
                    end = i;
                    break;
                }
            }
            i = end;
        }
        size_t size = i;
        while (size && v[size - 1] == '\n')
            size--;
        if (!level) {
            const std::string text(v.d, size);
            const buf b = wrap(text);
            if (cb.paragraph)
                cb.paragraph(nullptr, &b, opaque);
            return end;
        }
        size_t start = 0, stop = size;
        if (size) {
            size_t k = size - 1;
            while (k && v[k] != '\n')
                k--;
            const size_t last = k + (v[k] == '\n' ? 1 : 0);
            while (k && v[k - 1] == '\n')
                k--;
            if (k > 0) {
                const std::string text(v.d, k);
                const buf b = wrap(text);
                if (cb.paragraph)
                    cb.paragraph(nullptr, &b, opaque);
                parsed(t, beg, beg + last);
                start = last;
                parsedFrom = start;
            }
        }
        const std::string text(v.d + start, stop - start);
        const buf b = wrap(text);
        if (cb.header)
            cb.header(nullptr, &b, level, opaque);
        return end;
    }

    size_t parsedFrom = 0; // how much of the current block was reported already

    size_t fenced(const Text& t, size_t begin)
    {
        const View v{ t.s.data() + begin, t.size() - begin };
        std::string lang;
        size_t beg = codeFence(v, &lang);
        if (!beg)
            return 0;
        std::string work;
        while (beg < v.n) {
            std::string trail;
            const size_t close = codeFence(v.from(beg), &trail);
            if (close && trail.empty()) {
                beg += close;
                break;
            }
            const size_t end = lineEnd(v, beg);
            if (isEmpty(View{ v.d + beg, end - beg }))
                work.push_back('\n');
            else
                work.append(v.d + beg, end - beg);
            beg = end;
        }
        if (!work.empty() && work.back() != '\n')
            work.push_back('\n');
        const buf b = wrap(work), l = wrap(lang);
        if (cb.blockcode)
            cb.blockcode(nullptr, &b, lang.empty() ? nullptr : &l, opaque);
        return beg < v.n ? beg : v.n;
    }

    size_t code(const Text& t, size_t begin)
    {
        const View v{ t.s.data() + begin, t.size() - begin };
        size_t beg = 0;
        std::string work;
        while (beg < v.n) {
            const size_t end = lineEnd(v, beg);
            const size_t pre = prefixCode(View{ v.d + beg, end - beg });
            if (pre)
                beg += pre;
            else if (!isEmpty(View{ v.d + beg, end - beg }))
                break;
            if (beg < end) {
                if (isEmpty(View{ v.d + beg, end - beg }))
                    work.push_back('\n');
                else
                    work.append(v.d + beg, end - beg);
            }
            beg = end;
        }
        while (!work.empty() && work.back() == '\n')
            work.pop_back();
        work.push_back('\n');
        const buf b = wrap(work);
        if (cb.blockcode)
            cb.blockcode(nullptr, &b, nullptr, opaque);
        return beg;
    }

    size_t quote(const Text& t, size_t begin)
    {
        const View v{ t.s.data() + begin, t.size() - begin };
        Text work;
        size_t beg = 0, end = 0;
        while (beg < v.n) {
            end = lineEnd(v, beg);
            const size_t pre = prefixQuote(View{ v.d + beg, end - beg });
            if (pre)
                beg += pre;
            else if (isEmpty(View{ v.d + beg, end - beg })
                && (end >= v.n || (!prefixQuote(v.from(end)) && !isEmpty(v.from(end)))))
                break;
            if (beg < end)
                work.put(t, begin + beg, begin + end);
            beg = end;
        }
        if (cb.blockquote_begin)
            cb.blockquote_begin(opaque);
        block(work);
        const buf b = wrap(std::string());
        if (cb.blockquote)
            cb.blockquote(nullptr, &b, opaque);
        return end;
    }

    size_t item(const Text& t, size_t begin, int* flags)
    {
        const View v{ t.s.data() + begin, t.size() - begin };
        const size_t orgpre = indent(v);
        size_t beg = prefixUli(v);
        if (!beg)
            beg = prefixOli(v);
        if (!beg)
            return 0;
        size_t end = beg;
        while (end < v.n && v[end - 1] != '\n')
            end++;
        Text work;
        work.put(t, begin + beg, begin + end);
        beg = end;
        size_t sublist = 0, blank = 0;
        bool inEmpty = false, inFence = false;
        const int stop = 8; // end of the list
        while (beg < v.n) {
            end = lineEnd(v, beg);
            if (isEmpty(View{ v.d + beg, end - beg })) {
                if (!inEmpty)
                    blank = begin + beg;
                inEmpty = true;
                beg = end;
                continue;
            }
            size_t i = 0;
            while (i < 4 && beg + i < end && v[beg + i] == ' ')
                i++;
            const size_t pre = i;
            // the prefixes may look at the line after this one
            const View line{ v.d + beg + i, end - beg - i };
            if ((extensions & MKDEXT_FENCED_CODE) && codeFence(line, nullptr))
                inFence = !inFence;
            size_t uli = 0, oli = 0;
            if (!inFence) {
                uli = prefixUli(line);
                oli = prefixOli(line);
            }
            if (inEmpty && (((*flags & MKD_LIST_ORDERED) && uli) || (!(*flags & MKD_LIST_ORDERED) && oli))) {
                *flags |= stop;
                break;
            }
            if ((uli && !isHrule(line)) || oli) {
                if (pre <= orgpre)
                    break;
                if (!sublist)
                    sublist = work.size();
            } else if (inEmpty && pre == 0) {
                *flags |= stop;
                break;
            } else if (inEmpty) {
                work.put('\n', t.off[blank]);
            }
            inEmpty = false;
            work.put(t, begin + beg + i, begin + end);
            beg = end;
        }
        *flags |= MKD_LI_BLOCK;
        if (cb.listitem_begin)
            cb.listitem_begin(*flags & ~stop, opaque);
        if (sublist && sublist < work.size()) {
            block(work.sub(0, sublist));
            block(work.sub(sublist, work.size()));
        } else {
            block(work);
        }
        const buf b = wrap(std::string());
        if (cb.listitem)
            cb.listitem(nullptr, &b, *flags & ~stop, opaque);
        parsed(t, begin, begin + beg);
        return beg;
    }

    size_t list(const Text& t, size_t begin, int flags)
    {
        if (cb.list_begin)
            cb.list_begin(flags, opaque);
        size_t i = 0;
        while (begin + i < t.size()) {
            const size_t j = item(t, begin + i, &flags);
            i += j;
            if (!j || (flags & 8))
                break;
        }
        const buf b = wrap(std::string());
        if (cb.list)
            cb.list(nullptr, &b, flags & ~8, opaque);
        return i;
    }

    void block(const Text& t)
    {
        if (depth > nesting)
            return;
        depth++;
        size_t beg = 0;
        while (beg < t.size()) {
            const View v{ t.s.data() + beg, t.size() - beg };
            size_t i = 0;
            parsedFrom = 0;
            size_t from = 0;
            if (v[0] == '#') {
                i = header(t, beg);
            } else if (v[0] == '<' && cb.blockhtml && (i = htmlBlock(v)) != 0) {
                const std::string text(v.d, i > v.n ? v.n : i);
                // trailing empty lines are not part of the HTML
                std::string trimmed = text;
                while (trimmed.size() > 1 && trimmed.back() == '\n' && trimmed[trimmed.size() - 2] == '\n')
                    trimmed.pop_back();
                const buf b = wrap(trimmed);
                cb.blockhtml(nullptr, &b, opaque);
            } else if ((i = isEmpty(v)) != 0) {
            } else if (isHrule(v)) {
                if (cb.hrule)
                    cb.hrule(nullptr, opaque);
                while (i < v.n && v[i] != '\n')
                    i++;
                i++;
            } else if ((extensions & MKDEXT_FENCED_CODE) && (i = fenced(t, beg)) != 0) {
            } else if (prefixQuote(v)) {
                i = quote(t, beg);
            } else if (prefixCode(v)) {
                i = code(t, beg);
            } else if (prefixUli(v)) {
                i = list(t, beg, 0);
            } else if (prefixOli(v)) {
                i = list(t, beg, MKD_LIST_ORDERED);
            } else {
                i = paragraph(t, beg);
                from = parsedFrom;
            }
            if (i == 0)
                break;
            const size_t end = beg + i < t.size() ? beg + i : t.size();
            parsed(t, beg + from, end);
            beg = end;
        }
        depth--;
    }
};

extern "C" {
struct sd_markdown* sd_markdown_new(
    unsigned int extensions, size_t max_nesting, const struct sd_callbacks* callbacks, void* opaque)
{
    sd_markdown* md = new sd_markdown();
    md->cb = *callbacks;
    md->opaque = opaque;
    md->extensions = extensions;
    md->nesting = max_nesting;
    md->depth = 0;
    return md;
}

void sd_markdown_render(struct buf*, const uint8_t* document, size_t size, struct sd_markdown* md)
{
    Text text;
    size_t beg = 0;
    if (size >= 3 && document[0] == 0xEF && document[1] == 0xBB && document[2] == 0xBF)
        beg = 3;
    for (size_t i = beg; i < size; i++)
        text.put(static_cast<char>(document[i]), i);
    if (!text.size())
        return;
    if (text.s.back() != '\n')
        text.put('\n', size);
    md->block(text);
}

void sd_markdown_free(struct sd_markdown* md) { delete md; }

struct buf* bufnew(size_t unit)
{
    struct buf* b = static_cast<struct buf*>(std::calloc(1, sizeof(struct buf)));
    b->unit = unit;
    return b;
}

void bufrelease(struct buf* b)
{
    if (b)
        std::free(b->data);
    std::free(b);
}
}
