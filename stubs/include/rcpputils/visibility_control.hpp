#pragma once
#define RCPPUTILS_PUBLIC
