#include <sup/oac-tree/named_callback_manager.h>
// instances of the template under verification
template class sup::oac_tree::NamedCallbackManager<>;
template class sup::oac_tree::NamedCallbackManager<int>;
template class sup::oac_tree::NamedCallbackManager<const std::string&, bool>;
