// Input in pieces and the transcript of one typed parse, for builds compared with each other (C03, C28).
#pragma once
namespace
{
struct Input
{
  std::vector<char *> bufs;
  std::vector<size_t> sizes;
  std::function<void(const char *)> rel;
  size_t next = 0;
  explicit Input(const std::vector<std::string> &parts)
  {
    for (auto &s : parts)
    {
      char *p = (char *)malloc(s.size() ? s.size() : 1);
      memcpy(p, s.data(), s.size());
      bufs.push_back(p);
      sizes.push_back(s.size());
    }
    rel = [this](const char *p) {
      for (auto &b : bufs)
        if (b == p)
        {
          free(b);
          b = nullptr;
          return;
        }
    };
  }
  ~Input()
  {
    for (auto b : bufs)
      free(b);
  }
  void attach(JS::Tokenizer &t, unsigned opts, bool release)
  {
    t.allowAsciiType(opts & 1);
    t.allowNewLineAsTokenDelimiter(opts & 2);
    t.allowSuperfluousComma(opts & 4);
    t.allowComments(opts & 8);
    if (release)
      t.setReleaseCallback(rel);
    t.setNeedMoreDataCallback([this](JS::Tokenizer &x) {
      if (next < bufs.size())
      {
        x.addData(bufs[next], sizes[next]);
        next++;
      }
    });
  }
};
void add(std::string &out, const JS::DataRef &d)
{
  out += std::to_string(d.size) + ":";
  out.append(d.data, d.size);
}
template <class T>
void typed(std::string &out, const std::vector<std::string> &parts, unsigned opts, const char *name)
{
  Input in(parts);
  JS::ParseContext pc;
  in.attach(pc.tokenizer, opts, true);
  T v{};
  JS::Error e = pc.parseTo(v);
  out += std::string("\n") + name + " error " + std::to_string(int(e));
  if (e != JS::Error::NoError)
    out += " " + pc.makeErrorString();
  for (auto &m : pc.missing_members)
    out += " missing " + m;
  for (auto &m : pc.unassigned_required_members)
    out += " unassigned " + m;
  out += " value " + JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
  out += " pretty " + JS::serializeStruct(v);
}
} // namespace
