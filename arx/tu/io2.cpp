#include "convert/impl/iso88591_utf8.cpp"
