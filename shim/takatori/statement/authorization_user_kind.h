// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
namespace takatori::statement {
enum class authorization_user_kind { specified, current_user, all_users };
}  // namespace takatori::statement
