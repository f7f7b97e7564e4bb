// generated by tools/gen_aggs.py
#pragma once
struct S0 {
};
inline Fields fieldsOf(const S0 &s) {
  Fields v;
  return v;
}
CMP(S0)
struct S1 {
  std::string f0{};
};
inline Fields fieldsOf(const S1 &s) {
  Fields v;
  v.push_back(field(s.f0));
  return v;
}
CMP(S1)
struct S2 {
  double f0{};
  bool f1{};
};
inline Fields fieldsOf(const S2 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  return v;
}
CMP(S2)
struct S3 {
  bool f0{};
  VI f1{};
  int64_t f2{};
};
inline Fields fieldsOf(const S3 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  return v;
}
CMP(S3)
struct S4 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
};
inline Fields fieldsOf(const S4 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  return v;
}
CMP(S4)
struct S5 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
};
inline Fields fieldsOf(const S5 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  return v;
}
CMP(S5)
struct S6 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
};
inline Fields fieldsOf(const S6 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  return v;
}
CMP(S6)
struct S7 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
};
inline Fields fieldsOf(const S7 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  return v;
}
CMP(S7)
struct S8 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
};
inline Fields fieldsOf(const S8 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  return v;
}
struct S9 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
};
inline Fields fieldsOf(const S9 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  return v;
}
CMP(S9)
struct S10 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
};
inline Fields fieldsOf(const S10 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  return v;
}
struct S11 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
};
inline Fields fieldsOf(const S11 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  return v;
}
struct S12 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
};
inline Fields fieldsOf(const S12 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  return v;
}
CMP(S12)
struct S13 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
};
inline Fields fieldsOf(const S13 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  return v;
}
struct S14 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
};
inline Fields fieldsOf(const S14 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  return v;
}
struct S15 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
};
inline Fields fieldsOf(const S15 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  return v;
}
struct S16 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
};
inline Fields fieldsOf(const S16 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  return v;
}
CMP(S16)
struct S17 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
};
inline Fields fieldsOf(const S17 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  return v;
}
struct S18 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
};
inline Fields fieldsOf(const S18 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  return v;
}
struct S19 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
};
inline Fields fieldsOf(const S19 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  return v;
}
struct S20 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
};
inline Fields fieldsOf(const S20 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  return v;
}
struct S21 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
};
inline Fields fieldsOf(const S21 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  return v;
}
struct S22 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
};
inline Fields fieldsOf(const S22 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  return v;
}
struct S23 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
};
inline Fields fieldsOf(const S23 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  return v;
}
CMP(S23)
struct S24 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
};
inline Fields fieldsOf(const S24 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  return v;
}
struct S25 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
};
inline Fields fieldsOf(const S25 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  return v;
}
struct S26 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
};
inline Fields fieldsOf(const S26 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  return v;
}
struct S27 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
};
inline Fields fieldsOf(const S27 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  return v;
}
struct S28 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
};
inline Fields fieldsOf(const S28 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  return v;
}
struct S29 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
};
inline Fields fieldsOf(const S29 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  return v;
}
struct S30 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
};
inline Fields fieldsOf(const S30 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  return v;
}
struct S31 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
};
inline Fields fieldsOf(const S31 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  return v;
}
struct S32 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
};
inline Fields fieldsOf(const S32 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  return v;
}
struct S33 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
};
inline Fields fieldsOf(const S33 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  return v;
}
CMP(S33)
struct S34 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
};
inline Fields fieldsOf(const S34 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  return v;
}
struct S35 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
};
inline Fields fieldsOf(const S35 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  return v;
}
struct S36 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
};
inline Fields fieldsOf(const S36 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  return v;
}
struct S37 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
};
inline Fields fieldsOf(const S37 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  return v;
}
struct S38 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
};
inline Fields fieldsOf(const S38 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  return v;
}
struct S39 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
};
inline Fields fieldsOf(const S39 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  return v;
}
struct S40 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
};
inline Fields fieldsOf(const S40 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  return v;
}
struct S41 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
};
inline Fields fieldsOf(const S41 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  return v;
}
struct S42 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
};
inline Fields fieldsOf(const S42 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  return v;
}
struct S43 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
};
inline Fields fieldsOf(const S43 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  return v;
}
struct S44 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
};
inline Fields fieldsOf(const S44 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  return v;
}
struct S45 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
};
inline Fields fieldsOf(const S45 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  return v;
}
struct S46 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
};
inline Fields fieldsOf(const S46 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  return v;
}
struct S47 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
};
inline Fields fieldsOf(const S47 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  return v;
}
struct S48 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
};
inline Fields fieldsOf(const S48 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  return v;
}
struct S49 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
};
inline Fields fieldsOf(const S49 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  return v;
}
struct S50 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
};
inline Fields fieldsOf(const S50 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  return v;
}
struct S51 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
};
inline Fields fieldsOf(const S51 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  return v;
}
struct S52 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
};
inline Fields fieldsOf(const S52 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  return v;
}
struct S53 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
};
inline Fields fieldsOf(const S53 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  return v;
}
struct S54 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
};
inline Fields fieldsOf(const S54 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  return v;
}
struct S55 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
};
inline Fields fieldsOf(const S55 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  return v;
}
struct S56 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
};
inline Fields fieldsOf(const S56 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  return v;
}
struct S57 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
};
inline Fields fieldsOf(const S57 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  return v;
}
struct S58 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
};
inline Fields fieldsOf(const S58 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  return v;
}
struct S59 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
};
inline Fields fieldsOf(const S59 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  return v;
}
struct S60 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
};
inline Fields fieldsOf(const S60 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  return v;
}
struct S61 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
  int64_t f53{};
  bool f54{};
  int f55{};
  int64_t f56{};
  std::string f57{};
  VI f58{};
  std::string f59{};
  std::string f60{};
};
inline Fields fieldsOf(const S61 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  return v;
}
struct S62 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
  VI f54{};
  std::string f55{};
  int f56{};
  double f57{};
  uint8_t f58{};
  double f59{};
  double f60{};
  bool f61{};
};
inline Fields fieldsOf(const S62 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  return v;
}
struct S63 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
  double f55{};
  std::string f56{};
  bool f57{};
  Leaf f58{};
  bool f59{};
  bool f60{};
  VI f61{};
  int64_t f62{};
};
inline Fields fieldsOf(const S63 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  return v;
}
struct S64 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
  double f56{};
  VI f57{};
  int64_t f58{};
  VI f59{};
  VI f60{};
  uint8_t f61{};
  int f62{};
  Leaf f63{};
};
inline Fields fieldsOf(const S64 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  return v;
}
CMP(S64)
struct S65 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
  uint8_t f57{};
  int f58{};
  uint8_t f59{};
  uint8_t f60{};
  Leaf f61{};
  std::string f62{};
  int64_t f63{};
  Leaf f64{};
};
inline Fields fieldsOf(const S65 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  return v;
}
struct S66 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
  std::string f58{};
  Leaf f59{};
  Leaf f60{};
  int64_t f61{};
  double f62{};
  int f63{};
  int64_t f64{};
  int f65{};
};
inline Fields fieldsOf(const S66 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  return v;
}
struct S67 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
  int64_t f59{};
  int64_t f60{};
  int f61{};
  bool f62{};
  std::string f63{};
  int f64{};
  std::string f65{};
  uint8_t f66{};
};
inline Fields fieldsOf(const S67 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  return v;
}
struct S68 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
  int f60{};
  std::string f61{};
  VI f62{};
  double f63{};
  std::string f64{};
  double f65{};
  Leaf f66{};
  bool f67{};
};
inline Fields fieldsOf(const S68 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  return v;
}
struct S69 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
  int64_t f53{};
  bool f54{};
  int f55{};
  int64_t f56{};
  std::string f57{};
  VI f58{};
  std::string f59{};
  std::string f60{};
  double f61{};
  uint8_t f62{};
  bool f63{};
  double f64{};
  bool f65{};
  int64_t f66{};
  VI f67{};
  bool f68{};
};
inline Fields fieldsOf(const S69 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  return v;
}
struct S70 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
  VI f54{};
  std::string f55{};
  int f56{};
  double f57{};
  uint8_t f58{};
  double f59{};
  double f60{};
  bool f61{};
  Leaf f62{};
  VI f63{};
  bool f64{};
  VI f65{};
  int f66{};
  uint8_t f67{};
  VI f68{};
  Leaf f69{};
};
inline Fields fieldsOf(const S70 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  return v;
}
struct S71 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
  double f55{};
  std::string f56{};
  bool f57{};
  Leaf f58{};
  bool f59{};
  bool f60{};
  VI f61{};
  int64_t f62{};
  uint8_t f63{};
  VI f64{};
  uint8_t f65{};
  std::string f66{};
  Leaf f67{};
  uint8_t f68{};
  int64_t f69{};
  double f70{};
};
inline Fields fieldsOf(const S71 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  return v;
}
struct S72 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
  double f56{};
  VI f57{};
  int64_t f58{};
  VI f59{};
  VI f60{};
  uint8_t f61{};
  int f62{};
  Leaf f63{};
  uint8_t f64{};
  Leaf f65{};
  double f66{};
  int64_t f67{};
  Leaf f68{};
  int f69{};
  bool f70{};
  int f71{};
};
inline Fields fieldsOf(const S72 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  return v;
}
struct S73 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
  uint8_t f57{};
  int f58{};
  uint8_t f59{};
  uint8_t f60{};
  Leaf f61{};
  std::string f62{};
  int64_t f63{};
  Leaf f64{};
  int64_t f65{};
  bool f66{};
  int f67{};
  int64_t f68{};
  std::string f69{};
  VI f70{};
  std::string f71{};
  std::string f72{};
};
inline Fields fieldsOf(const S73 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  return v;
}
struct S74 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
  std::string f58{};
  Leaf f59{};
  Leaf f60{};
  int64_t f61{};
  double f62{};
  int f63{};
  int64_t f64{};
  int f65{};
  VI f66{};
  std::string f67{};
  int f68{};
  double f69{};
  uint8_t f70{};
  double f71{};
  double f72{};
  bool f73{};
};
inline Fields fieldsOf(const S74 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  return v;
}
struct S75 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
  int64_t f59{};
  int64_t f60{};
  int f61{};
  bool f62{};
  std::string f63{};
  int f64{};
  std::string f65{};
  uint8_t f66{};
  double f67{};
  std::string f68{};
  bool f69{};
  Leaf f70{};
  bool f71{};
  bool f72{};
  VI f73{};
  int64_t f74{};
};
inline Fields fieldsOf(const S75 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  return v;
}
struct S76 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
  int f60{};
  std::string f61{};
  VI f62{};
  double f63{};
  std::string f64{};
  double f65{};
  Leaf f66{};
  bool f67{};
  double f68{};
  VI f69{};
  int64_t f70{};
  VI f71{};
  VI f72{};
  uint8_t f73{};
  int f74{};
  Leaf f75{};
};
inline Fields fieldsOf(const S76 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  return v;
}
struct S77 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
  int64_t f53{};
  bool f54{};
  int f55{};
  int64_t f56{};
  std::string f57{};
  VI f58{};
  std::string f59{};
  std::string f60{};
  double f61{};
  uint8_t f62{};
  bool f63{};
  double f64{};
  bool f65{};
  int64_t f66{};
  VI f67{};
  bool f68{};
  uint8_t f69{};
  int f70{};
  uint8_t f71{};
  uint8_t f72{};
  Leaf f73{};
  std::string f74{};
  int64_t f75{};
  Leaf f76{};
};
inline Fields fieldsOf(const S77 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  return v;
}
struct S78 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
  VI f54{};
  std::string f55{};
  int f56{};
  double f57{};
  uint8_t f58{};
  double f59{};
  double f60{};
  bool f61{};
  Leaf f62{};
  VI f63{};
  bool f64{};
  VI f65{};
  int f66{};
  uint8_t f67{};
  VI f68{};
  Leaf f69{};
  std::string f70{};
  Leaf f71{};
  Leaf f72{};
  int64_t f73{};
  double f74{};
  int f75{};
  int64_t f76{};
  int f77{};
};
inline Fields fieldsOf(const S78 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  return v;
}
struct S79 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
  double f55{};
  std::string f56{};
  bool f57{};
  Leaf f58{};
  bool f59{};
  bool f60{};
  VI f61{};
  int64_t f62{};
  uint8_t f63{};
  VI f64{};
  uint8_t f65{};
  std::string f66{};
  Leaf f67{};
  uint8_t f68{};
  int64_t f69{};
  double f70{};
  int64_t f71{};
  int64_t f72{};
  int f73{};
  bool f74{};
  std::string f75{};
  int f76{};
  std::string f77{};
  uint8_t f78{};
};
inline Fields fieldsOf(const S79 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  return v;
}
struct S80 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
  double f56{};
  VI f57{};
  int64_t f58{};
  VI f59{};
  VI f60{};
  uint8_t f61{};
  int f62{};
  Leaf f63{};
  uint8_t f64{};
  Leaf f65{};
  double f66{};
  int64_t f67{};
  Leaf f68{};
  int f69{};
  bool f70{};
  int f71{};
  int f72{};
  std::string f73{};
  VI f74{};
  double f75{};
  std::string f76{};
  double f77{};
  Leaf f78{};
  bool f79{};
};
inline Fields fieldsOf(const S80 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  return v;
}
struct S81 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
  uint8_t f57{};
  int f58{};
  uint8_t f59{};
  uint8_t f60{};
  Leaf f61{};
  std::string f62{};
  int64_t f63{};
  Leaf f64{};
  int64_t f65{};
  bool f66{};
  int f67{};
  int64_t f68{};
  std::string f69{};
  VI f70{};
  std::string f71{};
  std::string f72{};
  double f73{};
  uint8_t f74{};
  bool f75{};
  double f76{};
  bool f77{};
  int64_t f78{};
  VI f79{};
  bool f80{};
};
inline Fields fieldsOf(const S81 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  return v;
}
struct S82 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
  std::string f58{};
  Leaf f59{};
  Leaf f60{};
  int64_t f61{};
  double f62{};
  int f63{};
  int64_t f64{};
  int f65{};
  VI f66{};
  std::string f67{};
  int f68{};
  double f69{};
  uint8_t f70{};
  double f71{};
  double f72{};
  bool f73{};
  Leaf f74{};
  VI f75{};
  bool f76{};
  VI f77{};
  int f78{};
  uint8_t f79{};
  VI f80{};
  Leaf f81{};
};
inline Fields fieldsOf(const S82 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  return v;
}
struct S83 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
  int64_t f59{};
  int64_t f60{};
  int f61{};
  bool f62{};
  std::string f63{};
  int f64{};
  std::string f65{};
  uint8_t f66{};
  double f67{};
  std::string f68{};
  bool f69{};
  Leaf f70{};
  bool f71{};
  bool f72{};
  VI f73{};
  int64_t f74{};
  uint8_t f75{};
  VI f76{};
  uint8_t f77{};
  std::string f78{};
  Leaf f79{};
  uint8_t f80{};
  int64_t f81{};
  double f82{};
};
inline Fields fieldsOf(const S83 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  return v;
}
struct S84 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
  int f60{};
  std::string f61{};
  VI f62{};
  double f63{};
  std::string f64{};
  double f65{};
  Leaf f66{};
  bool f67{};
  double f68{};
  VI f69{};
  int64_t f70{};
  VI f71{};
  VI f72{};
  uint8_t f73{};
  int f74{};
  Leaf f75{};
  uint8_t f76{};
  Leaf f77{};
  double f78{};
  int64_t f79{};
  Leaf f80{};
  int f81{};
  bool f82{};
  int f83{};
};
inline Fields fieldsOf(const S84 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  return v;
}
struct S85 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
  int64_t f53{};
  bool f54{};
  int f55{};
  int64_t f56{};
  std::string f57{};
  VI f58{};
  std::string f59{};
  std::string f60{};
  double f61{};
  uint8_t f62{};
  bool f63{};
  double f64{};
  bool f65{};
  int64_t f66{};
  VI f67{};
  bool f68{};
  uint8_t f69{};
  int f70{};
  uint8_t f71{};
  uint8_t f72{};
  Leaf f73{};
  std::string f74{};
  int64_t f75{};
  Leaf f76{};
  int64_t f77{};
  bool f78{};
  int f79{};
  int64_t f80{};
  std::string f81{};
  VI f82{};
  std::string f83{};
  std::string f84{};
};
inline Fields fieldsOf(const S85 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  return v;
}
struct S86 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
  VI f54{};
  std::string f55{};
  int f56{};
  double f57{};
  uint8_t f58{};
  double f59{};
  double f60{};
  bool f61{};
  Leaf f62{};
  VI f63{};
  bool f64{};
  VI f65{};
  int f66{};
  uint8_t f67{};
  VI f68{};
  Leaf f69{};
  std::string f70{};
  Leaf f71{};
  Leaf f72{};
  int64_t f73{};
  double f74{};
  int f75{};
  int64_t f76{};
  int f77{};
  VI f78{};
  std::string f79{};
  int f80{};
  double f81{};
  uint8_t f82{};
  double f83{};
  double f84{};
  bool f85{};
};
inline Fields fieldsOf(const S86 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  return v;
}
struct S87 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
  double f55{};
  std::string f56{};
  bool f57{};
  Leaf f58{};
  bool f59{};
  bool f60{};
  VI f61{};
  int64_t f62{};
  uint8_t f63{};
  VI f64{};
  uint8_t f65{};
  std::string f66{};
  Leaf f67{};
  uint8_t f68{};
  int64_t f69{};
  double f70{};
  int64_t f71{};
  int64_t f72{};
  int f73{};
  bool f74{};
  std::string f75{};
  int f76{};
  std::string f77{};
  uint8_t f78{};
  double f79{};
  std::string f80{};
  bool f81{};
  Leaf f82{};
  bool f83{};
  bool f84{};
  VI f85{};
  int64_t f86{};
};
inline Fields fieldsOf(const S87 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  return v;
}
struct S88 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
  double f56{};
  VI f57{};
  int64_t f58{};
  VI f59{};
  VI f60{};
  uint8_t f61{};
  int f62{};
  Leaf f63{};
  uint8_t f64{};
  Leaf f65{};
  double f66{};
  int64_t f67{};
  Leaf f68{};
  int f69{};
  bool f70{};
  int f71{};
  int f72{};
  std::string f73{};
  VI f74{};
  double f75{};
  std::string f76{};
  double f77{};
  Leaf f78{};
  bool f79{};
  double f80{};
  VI f81{};
  int64_t f82{};
  VI f83{};
  VI f84{};
  uint8_t f85{};
  int f86{};
  Leaf f87{};
};
inline Fields fieldsOf(const S88 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  return v;
}
struct S89 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
  uint8_t f57{};
  int f58{};
  uint8_t f59{};
  uint8_t f60{};
  Leaf f61{};
  std::string f62{};
  int64_t f63{};
  Leaf f64{};
  int64_t f65{};
  bool f66{};
  int f67{};
  int64_t f68{};
  std::string f69{};
  VI f70{};
  std::string f71{};
  std::string f72{};
  double f73{};
  uint8_t f74{};
  bool f75{};
  double f76{};
  bool f77{};
  int64_t f78{};
  VI f79{};
  bool f80{};
  uint8_t f81{};
  int f82{};
  uint8_t f83{};
  uint8_t f84{};
  Leaf f85{};
  std::string f86{};
  int64_t f87{};
  Leaf f88{};
};
inline Fields fieldsOf(const S89 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  return v;
}
struct S90 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
  std::string f58{};
  Leaf f59{};
  Leaf f60{};
  int64_t f61{};
  double f62{};
  int f63{};
  int64_t f64{};
  int f65{};
  VI f66{};
  std::string f67{};
  int f68{};
  double f69{};
  uint8_t f70{};
  double f71{};
  double f72{};
  bool f73{};
  Leaf f74{};
  VI f75{};
  bool f76{};
  VI f77{};
  int f78{};
  uint8_t f79{};
  VI f80{};
  Leaf f81{};
  std::string f82{};
  Leaf f83{};
  Leaf f84{};
  int64_t f85{};
  double f86{};
  int f87{};
  int64_t f88{};
  int f89{};
};
inline Fields fieldsOf(const S90 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  return v;
}
struct S91 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
  int64_t f59{};
  int64_t f60{};
  int f61{};
  bool f62{};
  std::string f63{};
  int f64{};
  std::string f65{};
  uint8_t f66{};
  double f67{};
  std::string f68{};
  bool f69{};
  Leaf f70{};
  bool f71{};
  bool f72{};
  VI f73{};
  int64_t f74{};
  uint8_t f75{};
  VI f76{};
  uint8_t f77{};
  std::string f78{};
  Leaf f79{};
  uint8_t f80{};
  int64_t f81{};
  double f82{};
  int64_t f83{};
  int64_t f84{};
  int f85{};
  bool f86{};
  std::string f87{};
  int f88{};
  std::string f89{};
  uint8_t f90{};
};
inline Fields fieldsOf(const S91 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  return v;
}
struct S92 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
  int f60{};
  std::string f61{};
  VI f62{};
  double f63{};
  std::string f64{};
  double f65{};
  Leaf f66{};
  bool f67{};
  double f68{};
  VI f69{};
  int64_t f70{};
  VI f71{};
  VI f72{};
  uint8_t f73{};
  int f74{};
  Leaf f75{};
  uint8_t f76{};
  Leaf f77{};
  double f78{};
  int64_t f79{};
  Leaf f80{};
  int f81{};
  bool f82{};
  int f83{};
  int f84{};
  std::string f85{};
  VI f86{};
  double f87{};
  std::string f88{};
  double f89{};
  Leaf f90{};
  bool f91{};
};
inline Fields fieldsOf(const S92 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  return v;
}
struct S93 {
  uint8_t f0{};
  Leaf f1{};
  std::string f2{};
  int64_t f3{};
  Leaf f4{};
  int64_t f5{};
  bool f6{};
  int f7{};
  int64_t f8{};
  std::string f9{};
  VI f10{};
  std::string f11{};
  std::string f12{};
  double f13{};
  uint8_t f14{};
  bool f15{};
  double f16{};
  bool f17{};
  int64_t f18{};
  VI f19{};
  bool f20{};
  uint8_t f21{};
  int f22{};
  uint8_t f23{};
  uint8_t f24{};
  Leaf f25{};
  std::string f26{};
  int64_t f27{};
  Leaf f28{};
  int64_t f29{};
  bool f30{};
  int f31{};
  int64_t f32{};
  std::string f33{};
  VI f34{};
  std::string f35{};
  std::string f36{};
  double f37{};
  uint8_t f38{};
  bool f39{};
  double f40{};
  bool f41{};
  int64_t f42{};
  VI f43{};
  bool f44{};
  uint8_t f45{};
  int f46{};
  uint8_t f47{};
  uint8_t f48{};
  Leaf f49{};
  std::string f50{};
  int64_t f51{};
  Leaf f52{};
  int64_t f53{};
  bool f54{};
  int f55{};
  int64_t f56{};
  std::string f57{};
  VI f58{};
  std::string f59{};
  std::string f60{};
  double f61{};
  uint8_t f62{};
  bool f63{};
  double f64{};
  bool f65{};
  int64_t f66{};
  VI f67{};
  bool f68{};
  uint8_t f69{};
  int f70{};
  uint8_t f71{};
  uint8_t f72{};
  Leaf f73{};
  std::string f74{};
  int64_t f75{};
  Leaf f76{};
  int64_t f77{};
  bool f78{};
  int f79{};
  int64_t f80{};
  std::string f81{};
  VI f82{};
  std::string f83{};
  std::string f84{};
  double f85{};
  uint8_t f86{};
  bool f87{};
  double f88{};
  bool f89{};
  int64_t f90{};
  VI f91{};
  bool f92{};
};
inline Fields fieldsOf(const S93 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  return v;
}
struct S94 {
  Leaf f0{};
  int64_t f1{};
  double f2{};
  int f3{};
  int64_t f4{};
  int f5{};
  VI f6{};
  std::string f7{};
  int f8{};
  double f9{};
  uint8_t f10{};
  double f11{};
  double f12{};
  bool f13{};
  Leaf f14{};
  VI f15{};
  bool f16{};
  VI f17{};
  int f18{};
  uint8_t f19{};
  VI f20{};
  Leaf f21{};
  std::string f22{};
  Leaf f23{};
  Leaf f24{};
  int64_t f25{};
  double f26{};
  int f27{};
  int64_t f28{};
  int f29{};
  VI f30{};
  std::string f31{};
  int f32{};
  double f33{};
  uint8_t f34{};
  double f35{};
  double f36{};
  bool f37{};
  Leaf f38{};
  VI f39{};
  bool f40{};
  VI f41{};
  int f42{};
  uint8_t f43{};
  VI f44{};
  Leaf f45{};
  std::string f46{};
  Leaf f47{};
  Leaf f48{};
  int64_t f49{};
  double f50{};
  int f51{};
  int64_t f52{};
  int f53{};
  VI f54{};
  std::string f55{};
  int f56{};
  double f57{};
  uint8_t f58{};
  double f59{};
  double f60{};
  bool f61{};
  Leaf f62{};
  VI f63{};
  bool f64{};
  VI f65{};
  int f66{};
  uint8_t f67{};
  VI f68{};
  Leaf f69{};
  std::string f70{};
  Leaf f71{};
  Leaf f72{};
  int64_t f73{};
  double f74{};
  int f75{};
  int64_t f76{};
  int f77{};
  VI f78{};
  std::string f79{};
  int f80{};
  double f81{};
  uint8_t f82{};
  double f83{};
  double f84{};
  bool f85{};
  Leaf f86{};
  VI f87{};
  bool f88{};
  VI f89{};
  int f90{};
  uint8_t f91{};
  VI f92{};
  Leaf f93{};
};
inline Fields fieldsOf(const S94 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  return v;
}
struct S95 {
  int64_t f0{};
  int f1{};
  bool f2{};
  std::string f3{};
  int f4{};
  std::string f5{};
  uint8_t f6{};
  double f7{};
  std::string f8{};
  bool f9{};
  Leaf f10{};
  bool f11{};
  bool f12{};
  VI f13{};
  int64_t f14{};
  uint8_t f15{};
  VI f16{};
  uint8_t f17{};
  std::string f18{};
  Leaf f19{};
  uint8_t f20{};
  int64_t f21{};
  double f22{};
  int64_t f23{};
  int64_t f24{};
  int f25{};
  bool f26{};
  std::string f27{};
  int f28{};
  std::string f29{};
  uint8_t f30{};
  double f31{};
  std::string f32{};
  bool f33{};
  Leaf f34{};
  bool f35{};
  bool f36{};
  VI f37{};
  int64_t f38{};
  uint8_t f39{};
  VI f40{};
  uint8_t f41{};
  std::string f42{};
  Leaf f43{};
  uint8_t f44{};
  int64_t f45{};
  double f46{};
  int64_t f47{};
  int64_t f48{};
  int f49{};
  bool f50{};
  std::string f51{};
  int f52{};
  std::string f53{};
  uint8_t f54{};
  double f55{};
  std::string f56{};
  bool f57{};
  Leaf f58{};
  bool f59{};
  bool f60{};
  VI f61{};
  int64_t f62{};
  uint8_t f63{};
  VI f64{};
  uint8_t f65{};
  std::string f66{};
  Leaf f67{};
  uint8_t f68{};
  int64_t f69{};
  double f70{};
  int64_t f71{};
  int64_t f72{};
  int f73{};
  bool f74{};
  std::string f75{};
  int f76{};
  std::string f77{};
  uint8_t f78{};
  double f79{};
  std::string f80{};
  bool f81{};
  Leaf f82{};
  bool f83{};
  bool f84{};
  VI f85{};
  int64_t f86{};
  uint8_t f87{};
  VI f88{};
  uint8_t f89{};
  std::string f90{};
  Leaf f91{};
  uint8_t f92{};
  int64_t f93{};
  double f94{};
};
inline Fields fieldsOf(const S95 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  return v;
}
struct S96 {
  int f0{};
  std::string f1{};
  VI f2{};
  double f3{};
  std::string f4{};
  double f5{};
  Leaf f6{};
  bool f7{};
  double f8{};
  VI f9{};
  int64_t f10{};
  VI f11{};
  VI f12{};
  uint8_t f13{};
  int f14{};
  Leaf f15{};
  uint8_t f16{};
  Leaf f17{};
  double f18{};
  int64_t f19{};
  Leaf f20{};
  int f21{};
  bool f22{};
  int f23{};
  int f24{};
  std::string f25{};
  VI f26{};
  double f27{};
  std::string f28{};
  double f29{};
  Leaf f30{};
  bool f31{};
  double f32{};
  VI f33{};
  int64_t f34{};
  VI f35{};
  VI f36{};
  uint8_t f37{};
  int f38{};
  Leaf f39{};
  uint8_t f40{};
  Leaf f41{};
  double f42{};
  int64_t f43{};
  Leaf f44{};
  int f45{};
  bool f46{};
  int f47{};
  int f48{};
  std::string f49{};
  VI f50{};
  double f51{};
  std::string f52{};
  double f53{};
  Leaf f54{};
  bool f55{};
  double f56{};
  VI f57{};
  int64_t f58{};
  VI f59{};
  VI f60{};
  uint8_t f61{};
  int f62{};
  Leaf f63{};
  uint8_t f64{};
  Leaf f65{};
  double f66{};
  int64_t f67{};
  Leaf f68{};
  int f69{};
  bool f70{};
  int f71{};
  int f72{};
  std::string f73{};
  VI f74{};
  double f75{};
  std::string f76{};
  double f77{};
  Leaf f78{};
  bool f79{};
  double f80{};
  VI f81{};
  int64_t f82{};
  VI f83{};
  VI f84{};
  uint8_t f85{};
  int f86{};
  Leaf f87{};
  uint8_t f88{};
  Leaf f89{};
  double f90{};
  int64_t f91{};
  Leaf f92{};
  int f93{};
  bool f94{};
  int f95{};
};
inline Fields fieldsOf(const S96 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  v.push_back(field(s.f95));
  return v;
}
struct S97 {
  std::string f0{};
  double f1{};
  uint8_t f2{};
  bool f3{};
  double f4{};
  bool f5{};
  int64_t f6{};
  VI f7{};
  bool f8{};
  uint8_t f9{};
  int f10{};
  uint8_t f11{};
  uint8_t f12{};
  Leaf f13{};
  std::string f14{};
  int64_t f15{};
  Leaf f16{};
  int64_t f17{};
  bool f18{};
  int f19{};
  int64_t f20{};
  std::string f21{};
  VI f22{};
  std::string f23{};
  std::string f24{};
  double f25{};
  uint8_t f26{};
  bool f27{};
  double f28{};
  bool f29{};
  int64_t f30{};
  VI f31{};
  bool f32{};
  uint8_t f33{};
  int f34{};
  uint8_t f35{};
  uint8_t f36{};
  Leaf f37{};
  std::string f38{};
  int64_t f39{};
  Leaf f40{};
  int64_t f41{};
  bool f42{};
  int f43{};
  int64_t f44{};
  std::string f45{};
  VI f46{};
  std::string f47{};
  std::string f48{};
  double f49{};
  uint8_t f50{};
  bool f51{};
  double f52{};
  bool f53{};
  int64_t f54{};
  VI f55{};
  bool f56{};
  uint8_t f57{};
  int f58{};
  uint8_t f59{};
  uint8_t f60{};
  Leaf f61{};
  std::string f62{};
  int64_t f63{};
  Leaf f64{};
  int64_t f65{};
  bool f66{};
  int f67{};
  int64_t f68{};
  std::string f69{};
  VI f70{};
  std::string f71{};
  std::string f72{};
  double f73{};
  uint8_t f74{};
  bool f75{};
  double f76{};
  bool f77{};
  int64_t f78{};
  VI f79{};
  bool f80{};
  uint8_t f81{};
  int f82{};
  uint8_t f83{};
  uint8_t f84{};
  Leaf f85{};
  std::string f86{};
  int64_t f87{};
  Leaf f88{};
  int64_t f89{};
  bool f90{};
  int f91{};
  int64_t f92{};
  std::string f93{};
  VI f94{};
  std::string f95{};
  std::string f96{};
};
inline Fields fieldsOf(const S97 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  v.push_back(field(s.f95));
  v.push_back(field(s.f96));
  return v;
}
struct S98 {
  double f0{};
  bool f1{};
  Leaf f2{};
  VI f3{};
  bool f4{};
  VI f5{};
  int f6{};
  uint8_t f7{};
  VI f8{};
  Leaf f9{};
  std::string f10{};
  Leaf f11{};
  Leaf f12{};
  int64_t f13{};
  double f14{};
  int f15{};
  int64_t f16{};
  int f17{};
  VI f18{};
  std::string f19{};
  int f20{};
  double f21{};
  uint8_t f22{};
  double f23{};
  double f24{};
  bool f25{};
  Leaf f26{};
  VI f27{};
  bool f28{};
  VI f29{};
  int f30{};
  uint8_t f31{};
  VI f32{};
  Leaf f33{};
  std::string f34{};
  Leaf f35{};
  Leaf f36{};
  int64_t f37{};
  double f38{};
  int f39{};
  int64_t f40{};
  int f41{};
  VI f42{};
  std::string f43{};
  int f44{};
  double f45{};
  uint8_t f46{};
  double f47{};
  double f48{};
  bool f49{};
  Leaf f50{};
  VI f51{};
  bool f52{};
  VI f53{};
  int f54{};
  uint8_t f55{};
  VI f56{};
  Leaf f57{};
  std::string f58{};
  Leaf f59{};
  Leaf f60{};
  int64_t f61{};
  double f62{};
  int f63{};
  int64_t f64{};
  int f65{};
  VI f66{};
  std::string f67{};
  int f68{};
  double f69{};
  uint8_t f70{};
  double f71{};
  double f72{};
  bool f73{};
  Leaf f74{};
  VI f75{};
  bool f76{};
  VI f77{};
  int f78{};
  uint8_t f79{};
  VI f80{};
  Leaf f81{};
  std::string f82{};
  Leaf f83{};
  Leaf f84{};
  int64_t f85{};
  double f86{};
  int f87{};
  int64_t f88{};
  int f89{};
  VI f90{};
  std::string f91{};
  int f92{};
  double f93{};
  uint8_t f94{};
  double f95{};
  double f96{};
  bool f97{};
};
inline Fields fieldsOf(const S98 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  v.push_back(field(s.f95));
  v.push_back(field(s.f96));
  v.push_back(field(s.f97));
  return v;
}
struct S99 {
  bool f0{};
  VI f1{};
  int64_t f2{};
  uint8_t f3{};
  VI f4{};
  uint8_t f5{};
  std::string f6{};
  Leaf f7{};
  uint8_t f8{};
  int64_t f9{};
  double f10{};
  int64_t f11{};
  int64_t f12{};
  int f13{};
  bool f14{};
  std::string f15{};
  int f16{};
  std::string f17{};
  uint8_t f18{};
  double f19{};
  std::string f20{};
  bool f21{};
  Leaf f22{};
  bool f23{};
  bool f24{};
  VI f25{};
  int64_t f26{};
  uint8_t f27{};
  VI f28{};
  uint8_t f29{};
  std::string f30{};
  Leaf f31{};
  uint8_t f32{};
  int64_t f33{};
  double f34{};
  int64_t f35{};
  int64_t f36{};
  int f37{};
  bool f38{};
  std::string f39{};
  int f40{};
  std::string f41{};
  uint8_t f42{};
  double f43{};
  std::string f44{};
  bool f45{};
  Leaf f46{};
  bool f47{};
  bool f48{};
  VI f49{};
  int64_t f50{};
  uint8_t f51{};
  VI f52{};
  uint8_t f53{};
  std::string f54{};
  Leaf f55{};
  uint8_t f56{};
  int64_t f57{};
  double f58{};
  int64_t f59{};
  int64_t f60{};
  int f61{};
  bool f62{};
  std::string f63{};
  int f64{};
  std::string f65{};
  uint8_t f66{};
  double f67{};
  std::string f68{};
  bool f69{};
  Leaf f70{};
  bool f71{};
  bool f72{};
  VI f73{};
  int64_t f74{};
  uint8_t f75{};
  VI f76{};
  uint8_t f77{};
  std::string f78{};
  Leaf f79{};
  uint8_t f80{};
  int64_t f81{};
  double f82{};
  int64_t f83{};
  int64_t f84{};
  int f85{};
  bool f86{};
  std::string f87{};
  int f88{};
  std::string f89{};
  uint8_t f90{};
  double f91{};
  std::string f92{};
  bool f93{};
  Leaf f94{};
  bool f95{};
  bool f96{};
  VI f97{};
  int64_t f98{};
};
inline Fields fieldsOf(const S99 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  v.push_back(field(s.f95));
  v.push_back(field(s.f96));
  v.push_back(field(s.f97));
  v.push_back(field(s.f98));
  return v;
}
struct S100 {
  VI f0{};
  uint8_t f1{};
  int f2{};
  Leaf f3{};
  uint8_t f4{};
  Leaf f5{};
  double f6{};
  int64_t f7{};
  Leaf f8{};
  int f9{};
  bool f10{};
  int f11{};
  int f12{};
  std::string f13{};
  VI f14{};
  double f15{};
  std::string f16{};
  double f17{};
  Leaf f18{};
  bool f19{};
  double f20{};
  VI f21{};
  int64_t f22{};
  VI f23{};
  VI f24{};
  uint8_t f25{};
  int f26{};
  Leaf f27{};
  uint8_t f28{};
  Leaf f29{};
  double f30{};
  int64_t f31{};
  Leaf f32{};
  int f33{};
  bool f34{};
  int f35{};
  int f36{};
  std::string f37{};
  VI f38{};
  double f39{};
  std::string f40{};
  double f41{};
  Leaf f42{};
  bool f43{};
  double f44{};
  VI f45{};
  int64_t f46{};
  VI f47{};
  VI f48{};
  uint8_t f49{};
  int f50{};
  Leaf f51{};
  uint8_t f52{};
  Leaf f53{};
  double f54{};
  int64_t f55{};
  Leaf f56{};
  int f57{};
  bool f58{};
  int f59{};
  int f60{};
  std::string f61{};
  VI f62{};
  double f63{};
  std::string f64{};
  double f65{};
  Leaf f66{};
  bool f67{};
  double f68{};
  VI f69{};
  int64_t f70{};
  VI f71{};
  VI f72{};
  uint8_t f73{};
  int f74{};
  Leaf f75{};
  uint8_t f76{};
  Leaf f77{};
  double f78{};
  int64_t f79{};
  Leaf f80{};
  int f81{};
  bool f82{};
  int f83{};
  int f84{};
  std::string f85{};
  VI f86{};
  double f87{};
  std::string f88{};
  double f89{};
  Leaf f90{};
  bool f91{};
  double f92{};
  VI f93{};
  int64_t f94{};
  VI f95{};
  VI f96{};
  uint8_t f97{};
  int f98{};
  Leaf f99{};
};
inline Fields fieldsOf(const S100 &s) {
  Fields v;
  v.push_back(field(s.f0));
  v.push_back(field(s.f1));
  v.push_back(field(s.f2));
  v.push_back(field(s.f3));
  v.push_back(field(s.f4));
  v.push_back(field(s.f5));
  v.push_back(field(s.f6));
  v.push_back(field(s.f7));
  v.push_back(field(s.f8));
  v.push_back(field(s.f9));
  v.push_back(field(s.f10));
  v.push_back(field(s.f11));
  v.push_back(field(s.f12));
  v.push_back(field(s.f13));
  v.push_back(field(s.f14));
  v.push_back(field(s.f15));
  v.push_back(field(s.f16));
  v.push_back(field(s.f17));
  v.push_back(field(s.f18));
  v.push_back(field(s.f19));
  v.push_back(field(s.f20));
  v.push_back(field(s.f21));
  v.push_back(field(s.f22));
  v.push_back(field(s.f23));
  v.push_back(field(s.f24));
  v.push_back(field(s.f25));
  v.push_back(field(s.f26));
  v.push_back(field(s.f27));
  v.push_back(field(s.f28));
  v.push_back(field(s.f29));
  v.push_back(field(s.f30));
  v.push_back(field(s.f31));
  v.push_back(field(s.f32));
  v.push_back(field(s.f33));
  v.push_back(field(s.f34));
  v.push_back(field(s.f35));
  v.push_back(field(s.f36));
  v.push_back(field(s.f37));
  v.push_back(field(s.f38));
  v.push_back(field(s.f39));
  v.push_back(field(s.f40));
  v.push_back(field(s.f41));
  v.push_back(field(s.f42));
  v.push_back(field(s.f43));
  v.push_back(field(s.f44));
  v.push_back(field(s.f45));
  v.push_back(field(s.f46));
  v.push_back(field(s.f47));
  v.push_back(field(s.f48));
  v.push_back(field(s.f49));
  v.push_back(field(s.f50));
  v.push_back(field(s.f51));
  v.push_back(field(s.f52));
  v.push_back(field(s.f53));
  v.push_back(field(s.f54));
  v.push_back(field(s.f55));
  v.push_back(field(s.f56));
  v.push_back(field(s.f57));
  v.push_back(field(s.f58));
  v.push_back(field(s.f59));
  v.push_back(field(s.f60));
  v.push_back(field(s.f61));
  v.push_back(field(s.f62));
  v.push_back(field(s.f63));
  v.push_back(field(s.f64));
  v.push_back(field(s.f65));
  v.push_back(field(s.f66));
  v.push_back(field(s.f67));
  v.push_back(field(s.f68));
  v.push_back(field(s.f69));
  v.push_back(field(s.f70));
  v.push_back(field(s.f71));
  v.push_back(field(s.f72));
  v.push_back(field(s.f73));
  v.push_back(field(s.f74));
  v.push_back(field(s.f75));
  v.push_back(field(s.f76));
  v.push_back(field(s.f77));
  v.push_back(field(s.f78));
  v.push_back(field(s.f79));
  v.push_back(field(s.f80));
  v.push_back(field(s.f81));
  v.push_back(field(s.f82));
  v.push_back(field(s.f83));
  v.push_back(field(s.f84));
  v.push_back(field(s.f85));
  v.push_back(field(s.f86));
  v.push_back(field(s.f87));
  v.push_back(field(s.f88));
  v.push_back(field(s.f89));
  v.push_back(field(s.f90));
  v.push_back(field(s.f91));
  v.push_back(field(s.f92));
  v.push_back(field(s.f93));
  v.push_back(field(s.f94));
  v.push_back(field(s.f95));
  v.push_back(field(s.f96));
  v.push_back(field(s.f97));
  v.push_back(field(s.f98));
  v.push_back(field(s.f99));
  return v;
}
CMP(S100)
#define EACH_S(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64) X(65) X(66) X(67) X(68) X(69) X(70) X(71) X(72) X(73) X(74) X(75) X(76) X(77) X(78) X(79) X(80) X(81) X(82) X(83) X(84) X(85) X(86) X(87) X(88) X(89) X(90) X(91) X(92) X(93) X(94) X(95) X(96) X(97) X(98) X(99) X(100)
#define SOME_S(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(9) X(12) X(16) X(23) X(33) X(64) X(100)
