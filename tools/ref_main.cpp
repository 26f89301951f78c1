#include "../harness/ref.hpp"
#include <cstdio>
#include <iostream>
#include <string>
// reads lines: kind n a b ; prints values
int main(){ char k; long n; char a[3000],b[3000];
 while(scanf(" %c %ld %2999s %2999s",&k,&n,a,b)==4){ using namespace ref; R r{C(),0};
  Q x=strtoflt128(a,0),y=strtoflt128(b,0);
  if(k=='l') r=li(n,C(x,y)); else r=li_circle(n,x);
  char s1[60],s2[60],s3[60]; quadmath_snprintf(s1,60,"%.36Qe",r.v.re);quadmath_snprintf(s2,60,"%.36Qe",r.v.im);quadmath_snprintf(s3,60,"%.3Qe",r.err);
  printf("%s %s %s\n",s1,s2,s3);} }
