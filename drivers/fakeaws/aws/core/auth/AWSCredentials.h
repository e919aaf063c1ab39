#pragma once
#include "fakeaws.hxx"
