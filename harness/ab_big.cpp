// auto_buffer with more than 2^32 elements (C14): positions and counts must not be cut to 32 bits.
#include <iterator>
#include <cstdio>
#include <cstring>
#include <new>
#include <boost/signals2/detail/auto_buffer.hpp>
typedef boost::signals2::detail::auto_buffer<char> B;
static int bad(const char *w){ printf("FAIL big buffer: %s\n",w); return 1; }
int main()
{
  const unsigned long n=(1ul<<32)+100;
  try {
    B b; b.reserve_precisely(n+16); if(b.capacity()<n+16) return bad("reserve");
    char *p=b.uninitialized_grow(n); if(p!=b.begin()||b.size()!=n) return bad("uninitialized_grow");
    std::memset(p,'.',n); for(int k=0;k<20;++k){ p[k]='a'+k; p[n-20+k]='A'+k; }
    b.erase(b.begin()+1); if(b.size()!=n-1||b[0]!='a'||b[1]!='c'||b.back()!='T'||b[n-21]!='A') return bad("erase(position)");
    b.erase(b.begin()+2,b.begin()+4); if(b.size()!=n-3||b[1]!='c'||b[2]!='f'||b.back()!='T'||b[n-23]!='A') return bad("erase(range)");
    b.insert(b.begin()+1,'!'); if(b.size()!=n-2||b[0]!='a'||b[1]!='!'||b[2]!='c'||b.back()!='T'||b[n-22]!='A') return bad("insert(x)");
    b.push_back('?'); if(b.size()!=n-1||b.back()!='?'||b[n-3]!='T') return bad("push_back");
    b.pop_back_n(n-4); if(b.size()!=3||b[0]!='a'||b[1]!='!'||b[2]!='c') return bad("pop_back_n");
  } catch(const std::bad_alloc &){ printf("not enough memory\n"); return 0; }
  printf("held\n"); return 0;
}
