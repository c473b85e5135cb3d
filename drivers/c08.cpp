// C08: the reactive variants, by the driver of C07
#define main main07
#include "c07.cpp"
#undef main
int main(int argc, char** argv)
{
  std::vector<char*> a(argv, argv + argc);
  static char flag[] = "--reactive";
  a.push_back(flag);
  return main07(int(a.size()), a.data());
}
