// The library includes this header but uses nothing from it.
#pragma once
