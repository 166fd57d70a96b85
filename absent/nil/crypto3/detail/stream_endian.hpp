// stand-in for a header of crypto3-block/hash that the repository includes and does not contain; nothing of it is used
#pragma once
