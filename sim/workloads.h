#pragma once
namespace wl {
void c01(); void c01g(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08();
void c09(); void c10(); void c11(); void c12(); void c13(); void c14(); void c15(); void c15e(); void c16(); void c20(); void c20g();
void selftest();
}
