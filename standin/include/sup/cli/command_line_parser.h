// Stand-in for sup-utils' sup::cli.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace sup
{
namespace cli
{
struct CommandLineOption
{
  std::vector<std::string> names;
  bool has_param = false, required = false, set = false;
  std::string value;
  CommandLineOption& SetParameter(bool v) { has_param = v; return *this; }
  CommandLineOption& SetValueName(const std::string&) { return *this; }
  CommandLineOption& SetRequired(bool v) { required = v; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { value = v; return *this; }
};
class CommandLineParser
{
public:
  void SetDescription(const std::string&, const std::string& = {}) {}
  void AddHelpOption() { AddOption({"-h", "--help"}, ""); }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& = {})
  {
    m_options.push_back(std::make_unique<CommandLineOption>());
    m_options.back()->names = names;
    return *m_options.back();
  }
  bool Parse(int argc, const char* const* argv)
  {
    for (int i = 1; i < argc; ++i)
    {
      auto opt = Find(argv[i]);
      if (!opt)
      {
        return false;
      }
      opt->set = true;
      if (opt->has_param)
      {
        if (++i >= argc)
        {
          return false;
        }
        opt->value = argv[i];
      }
    }
    for (auto& o : m_options)
    {
      if (o->required && !o->set)
      {
        return false;
      }
    }
    return !IsSet("--help");
  }
  std::string GetUsageString() const { return "usage\n"; }
  bool IsSet(const std::string& name) const { auto o = Find(name); return o && o->set; }
  template <typename T> T GetValue(const std::string& name) const
  {
    auto o = Find(name);
    return o ? T(o->value) : T{};
  }

private:
  CommandLineOption* Find(const std::string& name) const
  {
    for (auto& o : m_options)
    {
      for (auto& n : o->names)
      {
        if (n == name)
        {
          return o.get();
        }
      }
    }
    return nullptr;
  }
  std::vector<std::unique_ptr<CommandLineOption>> m_options;
};
}  // namespace cli
}  // namespace sup
